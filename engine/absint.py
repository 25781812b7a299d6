"""Path-sensitive abstract interpretation of MIR.

A disjunctive (powerset) dataflow analysis: abstract states are propagated along
control-flow edges, crate-local callees are analysed in context (inlined), states that
agree at a join are merged, loops are iterated to a fixpoint with widening of integers.
Unknown data are named terms; the only facts kept about a term are finite value sets or
intervals.  No program is executed and no solver is called.
"""
from mir import Program, AnchorError

class Limit(Exception):
    pass

# ------------------------------------------------------------------ terms
TERMS = []
TIX = {}
LEAVES = []
DEPTH = []
_EMPTY = frozenset()

def T(*t):
    i = TIX.get(t)
    if i is None:
        i = len(TERMS)
        TIX[t] = i
        TERMS.append(t)
        lv = set(); dp = 0
        k = t[0]
        if k in ("init", "site", "hav", "widen", "uneval"):
            lv.add(i)
        else:
            for x in t[1:]:
                l, d = _leaves(x)
                lv |= l
                if d > dp: dp = d
        LEAVES.append(frozenset(lv)); DEPTH.append(dp + 1)
    return i

def _leaves(v):
    if isinstance(v, tuple) and v:
        if v[0] == "sym" and len(v) == 2 and isinstance(v[1], int):
            return LEAVES[v[1]], DEPTH[v[1]]
        l, d = set(), 0
        for x in v:
            if isinstance(x, tuple):
                a, b = _leaves(x)
                l |= a
                if b > d: d = b
        return l, d
    return _EMPTY, 0

def sym(*t):
    return ("sym", T(*t))

UNIT = ("tup", ())
TRUE, FALSE = ("bool", 1), ("bool", 0)

def show(v, d=0):
    """readable rendering of a value"""
    if not isinstance(v, tuple) or not v: return str(v)
    if d > 7: return "…"
    k = v[0]
    if k == "sym": return show_t(v[1], d)
    if k in ("int",): return str(v[1])
    if k == "bool": return "true" if v[1] else "false"
    if k == "str": return repr(v[1])
    if k == "bytes": return "b" + repr(bytes(v[1]))
    if k == "adt":
        n = v[1].split("::")[-1] + ("::" + str(v[3]) if v[3] and v[3] != v[1].split("::")[-1] else "")
        return n + ("(" + ", ".join(show(x, d + 1) for x in v[4]) + ")" if v[4] else "")
    if k in ("tup", "arr"): return "(" + ", ".join(show(x, d + 1) for x in v[1]) + ")"
    if k == "ref": return "&" + show_path(v[1], d + 1)
    if k == "ovr": return "{" + show(v[1], d + 1) + " with " + ", ".join(str(a[1] if isinstance(a, tuple) else a) + "=" + show(b, d + 1) for a, b in v[2]) + "}"
    if k == "fn": return v[1].split("::")[-1]
    if k == "clo": return "closure"
    return str(v[0])

def show_t(i, d=0):
    t = TERMS[i]
    k = t[0]
    if k == "init": return str(t[1])
    if k == "fld": return show(t[1], d + 1) + (":" + t[2] if t[2] else "") + "." + str(t[4] or t[3])
    if k == "deref": return "*" + show(t[1], d + 1)
    if k == "call": return short_n(t[1]) + "(" + ", ".join(show(x, d + 1) for x in t[2:]) + ")"
    if k == "site": return short_n(t[1]) + "@" + str(t[3]) + ("'" * t[4])
    if k == "discr": return "discr(" + show(t[1], d + 1) + ")"
    if k == "hav": return "havoc[" + short_n(str(t[1])) + "]"
    return k + "(" + ", ".join(show(x, d + 1) for x in t[1:]) + ")"

def show_path(p, d=0):
    r, pr = p
    if r[0] == "L": s = "local%d" % r[2]
    elif r[0] == "H": s = "*" + show_t(r[1], d + 1)
    else: s = r[0]
    for e in pr: s += "." + str(e[2] or e[1]) if e[0] == "f" else "[]"
    return s

def short_n(n):
    return Program.short(n)

# ------------------------------------------------------------------ constraints
# ("in", frozenset)  |  ("rng", lo|None, hi|None, frozenset excluded)
FULL = ("rng", None, None, _EMPTY)

def c_norm(c):
    if c[0] == "rng" and c[1] is not None and c[2] is not None and c[2] - c[1] <= 300:
        return ("in", frozenset(x for x in range(c[1], c[2] + 1) if x not in c[3]))
    return c

def c_meet_in(c, s):
    if c[0] == "in": return ("in", c[1] & s)
    return ("in", frozenset(x for x in s if (c[1] is None or x >= c[1]) and (c[2] is None or x <= c[2]) and x not in c[3]))

def c_excl(c, s):
    if c[0] == "in": return ("in", c[1] - s)
    lo, hi, ex = c[1], c[2], set(c[3]) | set(s)
    while lo is not None and lo in ex: ex.discard(lo); lo += 1
    while hi is not None and hi in ex: ex.discard(hi); hi -= 1
    return c_norm(("rng", lo, hi, frozenset(ex)))

def c_range(c, lo, hi):
    if c[0] == "in":
        return ("in", frozenset(x for x in c[1] if (lo is None or x >= lo) and (hi is None or x <= hi)))
    l = c[1] if lo is None else (lo if c[1] is None else max(lo, c[1]))
    h = c[2] if hi is None else (hi if c[2] is None else min(hi, c[2]))
    return c_norm(("rng", l, h, c[3]))

def c_empty(c):
    if c[0] == "in": return not c[1]
    return c[1] is not None and c[2] is not None and c[1] > c[2]

def c_single(c):
    if c[0] == "in" and len(c[1]) == 1: return next(iter(c[1]))
    if c[0] == "rng" and c[1] is not None and c[1] == c[2]: return c[1]
    return None

INT_RNG = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
           "bool": (0, 1), "char": (0, 0x10ffff), "i32": (-2**31, 2**31 - 1), "isize": (-2**63, 2**63 - 1), "i64": (-2**63, 2**63 - 1), "u128": (0, 2**128-1)}

# ------------------------------------------------------------------ state
class Frame:
    __slots__ = ("fn", "bb", "subst", "locals", "dest", "target", "visits", "snaps", "shared", "clo", "onret", "line")
    def __init__(s, fn, subst, dest, target):
        s.fn, s.bb, s.subst, s.dest, s.target = fn, 0, subst, dest, target
        s.locals = {}; s.visits = None; s.snaps = None; s.shared = False; s.onret = None; s.line = 0
    def fork(s):
        n = Frame.__new__(Frame)
        n.fn, n.bb, n.subst, n.dest, n.target = s.fn, s.bb, s.subst, s.dest, s.target
        n.locals = s.locals; n.visits = s.visits; n.snaps = s.snaps
        s.shared = True; n.shared = True; n.onret = s.onret; n.line = s.line
        return n
    def own(s):
        if s.shared:
            s.locals = dict(s.locals)
            s.shared = False

class State:
    __slots__ = ("frames", "heap", "facts", "aut", "trace", "gen", "steps", "hshared")
    def __init__(s):
        s.frames = []; s.heap = {}; s.facts = {}; s.aut = None; s.trace = None; s.gen = frozenset(); s.steps = 0
    def fork(s):
        n = State.__new__(State)
        n.frames = [f.fork() for f in s.frames]
        n.heap = dict(s.heap); n.facts = dict(s.facts)
        n.aut = s.aut; n.trace = s.trace; n.gen = s.gen; n.steps = s.steps
        return n
    def note(s, what):
        s.trace = (s.trace, what)
    def path(s, n=40):
        out, t = [], s.trace
        while t and len(out) < n:
            out.append(t[1]); t = t[0]
        return out[::-1]
    # facts -----------------------------------------------------
    def dom(s, i):
        return s.facts.get(i, FULL)
    def val_int(s, v):
        if v[0] in ("int", "bool"): return v[1]
        if v[0] == "sym": return c_single(s.dom(v[1]))
        return None

class Call:
    __slots__ = ("name", "short", "id", "args", "targs", "site", "fn", "dest", "target", "trait", "mname", "line", "caller", "info", "argty")

class Engine:
    widen_from = 3
    def __init__(self, prog, rule=None, max_states=1200000, max_depth=45, rec=1, drops=False):
        self.rec = rec
        self.drops = drops
        self.p = prog
        self.rule = rule
        self.max_states = max_states
        self.max_depth = max_depth
        self.n_steps = 0
        self.n_merge = 0
        self.n_finals = 0
        self.fns_seen = set()
        self.opaque_calls = {}
        self.finals = []
        self.diverge = []
        self.truncated = 0
        self._liveat = {}

    # ---------------------------------------------------------- values
    def fields_of(self, v):
        return v[4] if v[0] == "adt" else v[1]

    def project(self, st, v, e):
        k = v[0]
        if e[0] == "f":
            if k == "adt":
                if e[1] < len(v[4]) and (e[3] is None or e[3] == "" or v[3] == e[3] or len(e) < 5 or True):
                    if e[4] is not None and e[4] != v[2]:
                        return sym("uneval", "wrongvariant")
                    return v[4][e[1]]
                return sym("uneval", "nofield")
            if k in ("tup", "arr"):
                return v[1][e[1]] if e[1] < len(v[1]) else sym("uneval", "nofield")
            if k == "clo": return v[2][e[1]]
            if k == "ovr":
                for kk, x in v[2]:
                    if kk == (e[1], e[4]): return x
                return self.project(st, v[1], e)
            if k == "ref": return v       # Box / NonNull internals
            if k == "sym":
                return ("sym", T("fld", v, e[3] or "", e[1], e[2] or ""))
            if k in ("int", "bool"): return v
            return sym("fld", v, e[3] or "", e[1], e[2] or "")
        if e[0] == "i":
            idx = e[1]
            if k == "arr" and idx[0] == "int" and 0 <= idx[1] < len(v[1]): return v[1][idx[1]]
            if k == "bytes" and idx[0] == "int" and 0 <= idx[1] < len(v[1]): return ("int", v[1][idx[1]])
            if k == "ovr":
                for kk, x in v[2]:
                    if kk == ("i", idx): return x
                return self.project(st, v[1], e)
            return ("sym", T("idx", v, idx))
        if e[0] == "ci":
            if k == "arr" and not e[3] and e[1] < len(v[1]): return v[1][e[1]]
            if k == "arr" and e[3] and 0 < e[1] <= len(v[1]): return v[1][len(v[1]) - e[1]]
            if k == "bytes" and not e[3] and e[1] < len(v[1]): return ("int", v[1][e[1]])
            return ("sym", T("ci", v, ("int", e[1]), ("int", int(bool(e[3])))))
        if e[0] == "ss":
            if k == "arr":
                hi = len(v[1]) - e[2] if e[3] else e[2]
                if e[1] <= hi <= len(v[1]): return ("arr", v[1][e[1]:hi])
            return ("sym", T("ss", v, ("int", e[1]), ("int", e[2])))
        return v

    def update(self, st, v, projs, new):
        if not projs: return new
        e = projs[0]
        k = v[0]
        if e[0] == "f":
            old = self.project(st, v, e)
            x = self.update(st, old, projs[1:], new)
            if k == "adt" and e[1] < len(v[4]):
                fs = list(v[4]); fs[e[1]] = x
                return ("adt", v[1], v[2], v[3], tuple(fs))
            if k in ("tup", "arr") and e[1] < len(v[1]):
                fs = list(v[1]); fs[e[1]] = x
                return (k, tuple(fs))
            if k == "clo":
                fs = list(v[2]); fs[e[1]] = x
                return ("clo", v[1], tuple(fs), v[3])
            key = (e[1], e[4])
            if k == "ovr":
                d = dict(v[2]); d[key] = x
                return ("ovr", v[1], tuple(sorted(d.items(), key=lambda z: repr(z[0]))))
            return ("ovr", v, ((key, x),))
        if e[0] in ("i", "ci"):
            if k == "arr":
                idx = e[1] if e[0] == "ci" else (e[1][1] if e[1][0] == "int" else None)
                if idx is not None and 0 <= idx < len(v[1]):
                    fs = list(v[1]); fs[idx] = self.update(st, fs[idx], projs[1:], new)
                    return ("arr", tuple(fs))
            old = self.project(st, v, e)
            x = self.update(st, old, projs[1:], new)
            if e[0] == "i":
                return ("ovr", sym("hav", "index"), ((("i", e[1]), x),))
            return sym("hav", "cindex")
        return sym("hav", "proj")

    def root_val(self, st, root):
        k = root[0]
        if k == "L":
            return st.frames[root[1]].locals.get(root[2]) or sym("uneval", "uninit")
        if k == "C": return root[1]
        v = st.heap.get(root)
        if v is None:
            if k == "H": return ("sym", T("deref", ("sym", root[1])))
            return sym("uneval", "heap")
        return v

    def read(self, st, path):
        v = self.root_val(st, path[0])
        for e in path[1]: v = self.project(st, v, e)
        return v

    def write(self, st, path, val):
        root, projs = path
        if root[0] == "L":
            f = st.frames[root[1]]
            f.own()
            if not projs: f.locals[root[2]] = val
            else: f.locals[root[2]] = self.update(st, f.locals.get(root[2]) or sym("uneval", "uninit"), projs, val)
            return
        if root[0] == "C": return
        if not projs: st.heap[root] = val
        else: st.heap[root] = self.update(st, self.root_val(st, root), projs, val)

    def deref_path(self, v):
        """path denoted by a pointer value"""
        k = v[0]
        if k == "ref": return v[1]
        if k == "sym": return (("H", v[1]), ())
        if k == "adt" and len(v[4]) >= 1:   # Pin / Box / guard-like struct around a pointer
            return self.deref_path(v[4][0])
        if k == "ovr":
            return (("H", T("ptr", v)), ())
        return (("C", v), ())

    def resolve(self, st, place, frame=None):
        d = len(st.frames) - 1 if frame is None else frame
        f = st.frames[d]
        root, projs = ("L", d, place[0]), ()
        var = None
        for e in place[1]:
            if e == "*":
                v = self.read(st, (root, projs))
                root, projs = self.deref_path(v)
                var = None
            elif e == "cast": pass
            else:
                k = e[0]
                if k == "v": var = (e[1], e[2])
                elif k == "f":
                    projs = projs + (("f", e[1], e[2], var[1] if var else None, var[0] if var else None),)
                    var = None
                elif k == "i":
                    iv = f.locals.get(e[1]) or sym("uneval", "uninit")
                    projs = projs + (("i", iv),)
                else: projs = projs + (tuple(e),)
        return (root, projs)

    def const(self, st, c):
        k = c[0]
        if k == "int": return ("bool", c[1]) if c[2] == "bool" else ("int", c[1])
        if k == "named": return self.const(st, c[2])
        if k == "str": return ("str", c[1])
        if k == "bytes": return ("bytes", tuple(c[1]))
        if k == "fn": return ("fn", c[1]["n"], self._fnix(c[1]))
        if k == "ref":
            v = self.const(st, c[1])
            return ("ref", (("C", v), ()), 0)
        if k == "adt": return ("adt", c[1], c[2], c[3], tuple(self.const(st, x) for x in c[4]))
        if k == "tuple": return ("tup", tuple(self.const(st, x) for x in c[1]))
        if k == "array":
            if c[1] and all(x[0] == "int" for x in c[1]) and c[1][0][2] == "u8":
                return ("bytes", tuple(x[1] for x in c[1]))
            return ("arr", tuple(self.const(st, x) for x in c[1]))
        if k == "zst": return UNIT
        if k == "closure": return ("clo", c[1], (), ())
        if k == "static":
            sv = self.p.consts.get("static " + c[1])
            if sv is not None and sv[0] is not None: return ("ref", (("C", self.const(st, sv[0])), ()), 0)
            return ("ref", (("S", c[1]), ()), 1)
        if k == "promoted":
            f = self.p.promoted.get((c[1], c[2]))
            if f:
                v = self.eval_promoted(f)
                if v is not None: return v
            return sym("uneval", "promoted:%s:%d" % (c[1], c[2]))
        if k == "assoc":
            fr = st.frames[-1]
            a = [self.p.subst(self.p.ty(x), fr.subst) for x in c[3]]
            r = self.p.find_impl(c[1], a[0], a) if a else None
            if r:
                it = r[0]["ix"].get(c[2])
                if it:
                    for nme, (val, sp, im) in self.p.consts.items():
                        if nme.endswith("::" + c[2]) and im is not None and self.p.ty(im) == self.p.ty(r[0]["self"]):
                            return self.const(st, val)
            return sym("uneval", "assoc:%s:%s" % (c[1], c[2]))
        if k == "uneval": return sym("uneval", c[1])
        if k == "opaque" and len(c) > 1 and c[1].startswith("Scalar(0x0000000000000000) : std::option::Option<"):
            return ("adt", "std::option::Option", 0, "None", ())      # null-pointer niche
        return sym("uneval", "opaque", repr(c[1:]))

    FNINFO = []
    FNIX = {}
    def _fnix(self, info):
        key = (info.get("id"), tuple(info.get("args", ())), info.get("res", {}).get("id"))
        i = Engine.FNIX.get(key)
        if i is None:
            i = len(Engine.FNINFO); Engine.FNINFO.append(info); Engine.FNIX[key] = i
        return i

    def eval_promoted(self, f):
        """straight-line constant bodies"""
        st = State(); fr = Frame(f, {}, None, None); st.frames.append(fr)
        bb = 0
        for _ in range(20):
            stmts, term, _c = f.blocks[bb]
            for s in stmts:
                if s[0] == "=":
                    v = self.rvalue(st, s[2], None)
                    self.write(st, self.resolve(st, s[1]), v)
            if term[0] == "return": break
            if term[0] == "goto": bb = term[1]
            else: return None
        def fz(v, d=0):
            if v[0] == "ref" and v[1][0][0] == "L" and d < 8:
                return ("ref", (("C", fz(self.read(st, v[1]), d + 1)), ()), 0)
            if v[0] == "adt": return v[:4] + (tuple(fz(x, d + 1) for x in v[4]),)
            if v[0] in ("tup", "arr"): return (v[0], tuple(fz(x, d + 1) for x in v[1]))
            return v
        return fz(fr.locals.get(0, UNIT))

    def operand(self, st, o):
        if o[0] == "k": return self.const(st, o[1])
        return self.read(st, self.resolve(st, o[1]))

    # ---------------------------------------------------------- facts
    def assume_in(self, st, v, vals):
        """restrict v to vals; False if infeasible"""
        if v[0] in ("int", "bool"): return v[1] in vals
        if v[0] != "sym": return True
        return self._restrict(st, v[1], lambda c: c_meet_in(c, vals))

    def assume_not(self, st, v, vals):
        if v[0] in ("int", "bool"): return v[1] not in vals
        if v[0] != "sym": return True
        return self._restrict(st, v[1], lambda c: c_excl(c, vals))

    def assume_rng(self, st, v, lo, hi):
        if v[0] in ("int", "bool"): return (lo is None or v[1] >= lo) and (hi is None or v[1] <= hi)
        if v[0] != "sym": return True
        return self._restrict(st, v[1], lambda c: c_range(c, lo, hi))

    def _restrict(self, st, i, fn):
        c0 = self.domain(st, i)
        c = fn(c0)
        if c_empty(c): return False
        if c != c0:
            st.facts[i] = c
            if self.rule and self.rule.on_fact: self.rule.on_fact(self, st, i, c)
        return self.propagate(st, i, c)

    def domain(self, st, i):
        c = st.facts.get(i)
        if c is not None: return c
        t = TERMS[i]
        k = t[0]
        if k == "discr" and t[2]:
            a = self.p.adts.get(t[2])
            if a and a["kind"] == "enum": return ("in", frozenset(a["discr"]))
        if k in ("cmp", "not", "eqv", "boolcall"): return ("in", frozenset((0, 1)))
        if k == "typed":
            r = INT_RNG.get(t[2])
            if r: return c_norm(("rng", r[0], r[1], _EMPTY))
        return FULL

    def propagate(self, st, i, c):
        """push a new fact on a compound term to its parts"""
        t = TERMS[i]
        k = t[0]
        v = c_single(c)
        if v is None: return True
        if k == "not":
            return self.assume_in(st, t[1], frozenset((1 - v,)))
        if k == "cmp":
            op, a, b = t[1], t[2], t[3]
            ai, bi = st.val_int(a), st.val_int(b)
            if op == "Eq":
                if bi is not None:
                    return self.assume_in(st, a, frozenset((bi,))) if v else self.assume_not(st, a, frozenset((bi,)))
                if ai is not None:
                    return self.assume_in(st, b, frozenset((ai,))) if v else self.assume_not(st, b, frozenset((ai,)))
            elif op == "Lt":
                if bi is not None:
                    return self.assume_rng(st, a, None, bi - 1) if v else self.assume_rng(st, a, bi, None)
                if ai is not None:
                    return self.assume_rng(st, b, ai + 1, None) if v else self.assume_rng(st, b, None, ai)
        return True

    def as_int(self, v):
        """int carried by newtype-wrapped constants"""
        while v[0] == "adt" and len(v[4]) == 1: v = v[4][0]
        return v

    def compare(self, st, op, a, b, tyname=None):
        """-> value (const bool or term)"""
        a, b = self.as_int(a), self.as_int(b)
        if op == "Gt": return self.compare(st, "Lt", b, a, tyname)
        if op == "Ge": return self.neg(st, self.compare(st, "Lt", a, b, tyname))
        if op == "Le": return self.neg(st, self.compare(st, "Lt", b, a, tyname))
        if op == "Ne": return self.neg(st, self.compare(st, "Eq", a, b, tyname))
        ai, bi = st.val_int(a), st.val_int(b)
        if ai is not None and bi is not None:
            return TRUE if (ai == bi if op == "Eq" else ai < bi) else FALSE
        if a == b: return TRUE if op == "Eq" else FALSE
        if a[0] in ("str", "bytes") and b[0] == a[0] and op == "Eq": return TRUE if a == b else FALSE
        if ai is not None and a[0] == "sym" : a = ("int", ai)
        if bi is not None and b[0] == "sym" : b = ("int", bi)
        if tyname in INT_RNG:
            for x in (a, b):
                if x[0] == "sym" and x[1] not in st.facts:
                    lo, hi = INT_RNG[tyname]
                    d = self.domain(st, x[1])
                    if d == FULL: st.facts[x[1]] = c_norm(("rng", lo, hi, _EMPTY))
        # decide from ranges
        def rng(x, xi):
            if xi is not None: return xi, xi, frozenset((xi,))
            if x[0] == "sym":
                c = self.domain(st, x[1])
                lo, hi = self.interval(st, x)
                if c[0] == "in": return (lo, hi, c[1]) if c[1] else (None, None, None)
                return lo, hi, None
            return None, None, None
        al, ah, as_ = rng(a, ai); bl, bh, bs = rng(b, bi)
        if op == "Eq":
            if as_ is not None and bs is not None and not (as_ & bs): return FALSE
            if ah is not None and bl is not None and ah < bl: return FALSE
            if al is not None and bh is not None and al > bh: return FALSE
            for x, xi, y, yi in ((a, ai, b, bi), (b, bi, a, ai)):
                if yi is not None and x[0] == "sym":
                    c = self.domain(st, x[1])
                    if c[0] == "rng" and yi in c[3]: return FALSE
            if bi is None and (ai is not None or repr(a) > repr(b)): a, b = b, a
        else:
            if ah is not None and bl is not None and ah < bl: return TRUE
            if al is not None and bh is not None and al >= bh: return FALSE
            # known reverse fact
            r = TIX.get(("cmp", "Lt", b, a))
            if r is not None and c_single(st.dom(r)) == 1: return FALSE
        t = T("cmp", op, a, b)
        v = c_single(st.dom(t))
        if v is not None: return ("bool", v)
        return ("sym", t)

    def interval(self, st, v, d=0):
        """(lo, hi) of an integer value from the facts and interval arithmetic; None = unbounded"""
        if v[0] in ("int", "bool"): return v[1], v[1]
        if v[0] == "adt" and len(v[4]) == 1: return self.interval(st, v[4][0], d)
        if v[0] != "sym": return None, None
        c = self.domain(st, v[1])
        if c[0] == "in": lo, hi = (min(c[1]), max(c[1])) if c[1] else (None, None)
        else: lo, hi = c[1], c[2]
        t = TERMS[v[1]]
        if d < 12 and t[0] == "bin":
            a = self.interval(st, t[2], d + 1); b = self.interval(st, t[3], d + 1)
            l = h = None
            if t[1] == "Add":
                if a[0] is not None and b[0] is not None: l = a[0] + b[0]
                if a[1] is not None and b[1] is not None: h = a[1] + b[1]
            elif t[1] == "Sub":
                if a[0] is not None and b[1] is not None: l = a[0] - b[1]
                if a[1] is not None and b[0] is not None: h = a[1] - b[0]
                if l is not None and l < 0: l = h = None     # may wrap
            elif t[1] == "Mul" and a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
                l = a[0] * b[0]
                if a[1] is not None and b[1] is not None: h = a[1] * b[1]
            elif t[1] == "BitAnd":
                l = 0
                hs = [x for x in (a[1], b[1]) if x is not None]
                h = min(hs) if hs else None
            if l is not None and h is not None and h < 2**64:
                if lo is None or l > lo: lo = l
                if hi is None or h < hi: hi = h
        elif d < 12 and t[0] == "cast":
            a = self.interval(st, t[1], d + 1)
            r = INT_RNG.get(t[2])
            if r and a[0] is not None and a[1] is not None and a[0] >= r[0] and a[1] <= r[1]:
                if lo is None or a[0] > lo: lo = a[0]
                if hi is None or a[1] < hi: hi = a[1]
        return lo, hi

    def neg(self, st, v):
        if v[0] == "bool": return ("bool", 1 - v[1])
        if v[0] == "sym":
            t = TERMS[v[1]]
            if t[0] == "not": return t[1]
            return ("sym", T("not", v))
        return v

    # ---------------------------------------------------------- equality of structured values (may fork)
    def eq_fork(self, st, a, b, depth=0):
        """-> list of (state, bool)"""
        while a[0] == "ref": a = self.read(st, a[1])
        while b[0] == "ref": b = self.read(st, b[1])
        if a == b and a[0] != "sym": return [(st, True)]
        if a[0] == "sym" and a == b: return [(st, True)]
        if a[0] != "adt" and b[0] == "adt": a, b = b, a
        if a[0] == "adt" and depth < 8:
            ad = self.p.adts.get(a[1])
            if b[0] == "adt" and b[1] == a[1] or b[0] in ("sym", "ovr"):
                out = []
                cur = [st]
                if ad and ad["kind"] == "enum":
                    d = self.discr(st, b, a[1])
                    want = ad["discr"][a[2]]
                    dv = st.val_int(d)
                    if dv is not None and dv != want: return [(st, False)]
                    if dv is None:
                        s2 = st.fork()
                        if self.assume_not(s2, d, frozenset((want,))): out.append((s2, False))
                        if not self.assume_in(st, d, frozenset((want,))): return out
                    vn, vi = a[3], a[2]
                else: vn, vi = None, None
                names = ad["variants"][a[2]][2] if ad else [("%d" % i,) for i in range(len(a[4]))]
                for i, x in enumerate(a[4]):
                    nxt = []
                    for s in cur:
                        y = self.project(s, b, ("f", i, names[i][0] if i < len(names) else "", vn, vi))
                        for s3, r in self.eq_fork(s, x, y, depth + 1):
                            if r: nxt.append(s3)
                            else: out.append((s3, False))
                    cur = nxt
                return [(s, True) for s in cur] + out
        if a[0] in ("tup", "arr") and b[0] == a[0] and len(a[1]) == len(b[1]):
            out, cur = [], [st]
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in cur:
                    for s3, r in self.eq_fork(s, x, y, depth + 1):
                        if r: nxt.append(s3)
                        else: out.append((s3, False))
                cur = nxt
            return [(s, True) for s in cur] + out
        r = self.compare(st, "Eq", a, b)
        return self.fork_bool(st, r)

    def fork_bool(self, st, v):
        k = st.val_int(v)
        if k is not None: return [(st, bool(k))]
        if v[0] != "sym":
            return [(st.fork(), True), (st, False)]
        out = []
        s2 = st.fork()
        if self.assume_in(s2, v, frozenset((1,))): out.append((s2, True))
        if self.assume_in(st, v, frozenset((0,))): out.append((st, False))
        return out

    def discr(self, st, v, adt):
        k = v[0]
        if k == "adt":
            a = self.p.adts.get(v[1])
            return ("int", a["discr"][v[2]] if a else v[2])
        if k == "ovr":
            for kk, x in v[2]:
                if kk == "discr": return x
            for kk, x in v[2]:      # a variant field was written: that variant is active
                if isinstance(kk, tuple) and kk[0] != "i" and kk[1] is not None:
                    a = self.p.adts.get(adt) if adt else None
                    return ("int", a["discr"][kk[1]] if a else kk[1])
            return self.discr(st, v[1], adt)
        if k == "sym":
            a = self.p.adts.get(adt) if adt else None
            if a and a["kind"] == "enum" and len(a["discr"]) == 1: return ("int", a["discr"][0])
            t = T("discr", v, adt or "")
            x = c_single(self.domain(st, t))
            if x is not None: return ("int", x)
            return ("sym", t)
        if k in ("int", "bool"): return ("int", v[1])
        return sym("discr", v, adt or "")

    # ---------------------------------------------------------- rvalues
    def opty(self, st, o):
        f = st.frames[-1].fn
        if o[0] == "k":
            c = o[1]
            while c[0] == "named": c = c[2]
            return c[2] if c[0] == "int" else None
        p = o[1]
        if not p[1]:
            t = self.p.ty(f.locals[p[0]][0])
            return t[1] if t[0] == "prim" else None
        return None

    def rvalue(self, st, r, site):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k in ("ref", "raw"):
            p = self.resolve(st, r[2])
            # reborrow of a pointer cell: keep path
            return ("ref", p, r[1])
        if k == "discr":
            return self.discr(st, self.read(st, self.resolve(st, r[1])), r[2])
        if k == "agg":
            fs = tuple(self.operand(st, o) for o in r[2])
            kk = r[1]
            if kk[0] == "adt":
                if kk[4] is not None:   # union
                    return fs[0] if fs else UNIT
                return ("adt", kk[1], kk[2], kk[3], fs)
            if kk[0] == "tuple": return ("tup", fs)
            if kk[0] == "array":
                if fs and all(x[0] == "int" for x in fs): return ("arr", fs)
                return ("arr", fs)
            if kk[0] == "closure":
                sb = tuple(sorted(st.frames[-1].subst.items())) if st.frames[-1].subst else ()
                return ("clo", kk[1], fs, sb)
            if kk[0] == "rawptr": return fs[0] if fs else UNIT
            return sym("agg", kk[0], kk[1] if len(kk) > 1 else "", ("tup", fs))
        if k == "bin":
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            op = r[1]
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return self.compare(st, op, a, b, self.opty(st, r[2]) or self.opty(st, r[3]))
            return self.arith(st, op, a, b)
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                t = self.opty(st, r[2])
                if a[0] == "bool" or t in (None, "bool"): return self.neg(st, a)
                return sym("un", "Not", a)
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            if a[0] == "int" and r[1] == "Neg": return ("int", -a[1])
            return sym("un", r[1], a)
        if k == "cast":
            v = self.operand(st, r[2])
            ck = r[1]
            if ck in ("PointerCoercion", "PtrToPtr", "FnPtrToPtr", "BoxDerefTransmute", "Subtype"): return v
            if ck == "Transmute": return self.as_int(v) if v[0] == "adt" else v
            if ck == "IntToInt":
                if v[0] == "bool": return ("int", v[1])
                if v[0] == "int":
                    t = self.p.ty(r[3])
                    rg = INT_RNG.get(t[1]) if t[0] == "prim" else None
                    if rg and not (rg[0] <= v[1] <= rg[1]):
                        m = rg[1] - rg[0] + 1
                        return ("int", (v[1] - rg[0]) % m + rg[0])
                    return v
                src = self.p.ty(r[4]); dst = self.p.ty(r[3])
                s1, d1 = INT_RNG.get(src[1] if src[0] == "prim" else None), INT_RNG.get(dst[1] if dst[0] == "prim" else None)
                if v[0] == "sym" and s1 and d1 and d1[0] <= s1[0] and s1[1] <= d1[1]:
                    if v[1] not in st.facts and s1[1] < 2**32: st.facts[v[1]] = c_norm(("rng", s1[0], s1[1], _EMPTY))
                    return v    # widening: same number
                return sym("cast", v, dst[1] if dst[0] == "prim" else "?")
            return sym("cast", v, "?")
        if k == "repeat":
            v = self.operand(st, r[1])
            if r[2] is not None and r[2] <= 64: return ("arr", (v,) * r[2])
            return sym("repeat", v, ("int", r[2] if r[2] is not None else -1))
        if k == "tls": return ("ref", (("S", r[1]), ()), 1)
        return sym("rv", k)

    def length(self, st, a):
        """len of a slice/str pointer value"""
        v = a
        while v[0] == "ref": v = self.read(st, v[1])
        if v[0] == "bytes": return ("int", len(v[1]))
        if v[0] == "arr": return ("int", len(v[1]))
        if v[0] == "str": return ("int", len(v[1].encode()))
        return self.typed(st, sym("len", self.snapshot(st, a)), "usize")

    def typed(self, st, v, tyname):
        if v[0] == "sym" and v[1] not in st.facts:
            r = INT_RNG.get(tyname)
            if r: st.facts[v[1]] = c_norm(("rng", r[0], r[1], _EMPTY))
        return v

    def arith(self, st, op, a, b):
        a, b = self.as_int(a), self.as_int(b)
        ai, bi = st.val_int(a), st.val_int(b)
        op = op.replace("Unchecked", "")
        if ai is not None and bi is not None:
            isb = a[0] == "bool" and b[0] == "bool"
            try:
                r = {"Add": lambda: ai + bi, "Sub": lambda: ai - bi, "Mul": lambda: ai * bi, "BitAnd": lambda: ai & bi,
                     "BitOr": lambda: ai | bi, "BitXor": lambda: ai ^ bi, "Div": lambda: ai // bi, "Rem": lambda: ai % bi,
                     "Shl": lambda: ai << bi, "Shr": lambda: ai >> bi}[op]()
                if op == "Cmp": return None
                return ("bool", r) if isb else ("int", r)
            except (KeyError, ZeroDivisionError):
                pass
        if op in ("BitAnd", "BitOr") and (a[0] == "bool" or b[0] == "bool"):
            k, o = (a, b) if a[0] == "bool" else (b, a)
            if op == "BitAnd": return o if k[1] else FALSE
            return TRUE if k[1] else o
        if op in ("Add", "Sub") and bi == 0: return a
        if op == "Add" and ai == 0: return b
        return ("sym", T("bin", op, a, b))

    # ---------------------------------------------------------- snapshots (content of references) for pure terms
    def snapshot(self, st, v, depth=0):
        k = v[0]
        if k == "ref":
            if depth > 5: return sym("uneval", "deep")
            root = v[1][0]
            if root[0] == "S": return ("static", root[1])
            x = self.read(st, v[1])
            if x[0] == "sym" and TERMS[x[1]][0] == "deref": return TERMS[x[1]][1]   # &*p == p
            return ("rf", self.snapshot(st, x, depth + 1))
        if k == "adt": return ("adt", v[1], v[2], v[3], tuple(self.snapshot(st, x, depth + 1) for x in v[4]))
        if k in ("tup", "arr"): return (k, tuple(self.snapshot(st, x, depth + 1) for x in v[1]))
        if k == "clo": return ("clo", v[1], tuple(self.snapshot(st, x, depth + 1) for x in v[2]), ())
        if k == "ovr": return ("ovr", self.snapshot(st, v[1], depth + 1), tuple((a, self.snapshot(st, b, depth + 1)) for a, b in v[2]))
        return v

    def mut_refs(self, st, v, out, depth=0):
        k = v[0]
        if k == "ref":
            if v[2]: out.append(v[1])
            elif depth < 2:
                x = self.root_val(st, v[1][0])
                if v[1][0][0] != "C":
                    pass
            return
        if depth > 5: return
        if k == "adt":
            for x in v[4]: self.mut_refs(st, x, out, depth + 1)
        elif k in ("tup", "arr"):
            for x in v[1]: self.mut_refs(st, x, out, depth + 1)
        elif k == "clo":
            for x in v[2]: self.mut_refs(st, x, out, depth + 1)
        elif k == "ovr":
            for _, x in v[2]: self.mut_refs(st, x, out, depth + 1)

    def fresh(self, st, kind, name, fid, site, sub=0):
        """site-named unknown; generation-indexed so that a live older value is not confused with it"""
        base = (kind, name, fid, site, sub)
        if base not in st.gen:
            st.gen = st.gen | {base}
            t = T(kind, name, fid, site, 0, sub)
            self.purge(st, t)
            return ("sym", t)
        live = self.live_leaves(st)
        g = 0
        while True:
            t = T(kind, name, fid, site, g, sub)
            if t not in live: break
            g += 1
            if g > 4: break
        self.purge(st, t)
        return ("sym", t)

    def purge(self, st, leaf):
        dead = [i for i in st.facts if leaf in LEAVES[i]]
        for i in dead: del st.facts[i]
        dead = [r for r in st.heap if r[0] == "H" and leaf in LEAVES[r[1]]]
        for r in dead: del st.heap[r]

    def live_leaves(self, st):
        out = set()
        def walk(v):
            if isinstance(v, tuple) and v:
                if v[0] == "sym" and len(v) == 2: out.update(LEAVES[v[1]])
                elif v[0] == "H" and len(v) == 2 and isinstance(v[1], int): out.update(LEAVES[v[1]])
                else:
                    for x in v[1:]:
                        if isinstance(x, tuple): walk(x)
                    if isinstance(v[0], tuple): walk(v[0])
        for f in st.frames:
            for v in f.locals.values(): walk(v)
        for r, v in st.heap.items():
            walk(v)
        return out

    # ---------------------------------------------------------- running
    def run(self, fn, args, subst=None, heap=None, facts=None, aut=None):
        """analyse fn from the given abstract arguments; -> list of final states"""
        st = State()
        if heap: st.heap.update(heap)
        if facts: st.facts.update(facts)
        st.aut = aut
        self.finals = []; self.diverge = []
        self.push(st, fn, args, subst or {}, None, None)
        work = [st]
        seen = {}
        self.seen = seen
        while work:
            s = work.pop()
            while s is not None:
                nxt = self.step(s)
                if not nxt: s = None; break
                s = nxt[0]
                for o in nxt[1:]: work.append(o)
                # join handling
                fr = s.frames[-1] if s.frames else None
                if fr is None: break
            if self.n_steps > self.max_states: raise Limit("state limit in %s" % fn.n)
        return self.finals

    def push(self, st, fn, args, subst, dest, target):
        self.p.prep(fn)
        self.fns_seen.add(fn.id)
        fr = Frame(fn, subst, dest, target)
        for i, a in enumerate(args): fr.locals[i + 1] = a
        st.frames.append(fr)
        return fr

    def key(self, st):
        ks = []
        n = len(st.frames)
        leaves = set()
        def walk(v):
            if v[0] == "sym" and len(v) == 2:
                leaves.update(LEAVES[v[1]])
            else:
                for x in v:
                    if isinstance(x, tuple) and x:
                        if x[0] == "H" and len(x) == 2 and isinstance(x[1], int): leaves.update(LEAVES[x[1]])
                        else: walk(x)
        for d, f in enumerate(st.frames):
            bb = f.bb if d == n - 1 else st.frames[d + 1].target
            if bb == "resume": bb = f.bb
            live = f.fn.live[bb] if bb is not None else ()
            bor = f.fn.borrowed
            items = []
            for l, v in f.locals.items():
                if l in live or l in bor:
                    items.append((l, v))
            items.sort(key=lambda z: z[0])
            for _, v in items: walk(v)
            ks.append((f.fn.key, bb, f.dest, tuple(items)))
        hs = []
        for r, v in st.heap.items():
            hs.append((r, v)); walk(v)
        hs.sort(key=lambda z: repr(z[0]))
        keep = self.rule.keep_fact if self.rule else None
        fs = []
        for i, c in st.facts.items():
            lv = LEAVES[i]
            ok = all(l in leaves or TERMS[l][0] in ("init", "uneval") for l in lv)
            if ok and keep is not None and not keep(self, st, i): ok = False
            if ok: fs.append((i, c))
        if len(fs) != len(st.facts):
            st.facts = dict(fs)
        fs.sort(key=lambda z: z[0])
        a = st.aut
        if isinstance(a, dict): a = tuple(sorted(a.items(), key=lambda z: z[0]))
        return (tuple(ks), tuple(hs), tuple(fs), a)

    def goto(self, st, bb):
        fr = st.frames[-1]
        fr.bb = bb
        f = fr.fn
        if bb in f.loops:
            self.widen(st, fr, bb)
        if bb in f.joins:
            k = self.key(st)
            if k in self.seen:
                self.n_merge += 1
                return []
            self.seen[k] = True
        return [st]

    def widen(self, st, fr, bb):
        v = dict(fr.visits or {})
        n = v.get(bb, 0) + 1
        v[bb] = n
        fr.visits = v
        sn = dict(fr.snaps or {})
        old = sn.get(bb)
        if old is not None and n >= self.widen_from:
            live = fr.fn.live[bb] | fr.fn.borrowed
            for l in list(fr.locals):
                if l not in live: continue
                nv, ov = fr.locals[l], old.get(l)
                if ov is None or nv == ov: continue
                w = self.widen_val(st, nv, ov, (fr.fn.key, bb, l))
                if w != nv:
                    fr.own(); fr.locals[l] = w
            for r, nv in list(st.heap.items()):
                ov = sn.get(("heap", bb), {}).get(r)
                if ov is None or nv == ov: continue
                w = self.widen_val(st, nv, ov, (fr.fn.key, bb, repr(r)))
                if w != nv: st.heap[r] = w
        sn[bb] = dict(fr.locals)
        sn[("heap", bb)] = dict(st.heap)
        fr.snaps = sn

    def widen_val(self, st, nv, ov, where, d=0):
        if nv == ov: return nv
        if nv[0] == "int":
            t = T("widen", where, d)
            self.purge(st, t)
            return ("sym", t)
        if nv[0] == "sym":
            t = TERMS[nv[1]]
            if t[0] in ("bin", "cast", "un") or DEPTH[nv[1]] > 10:
                w = T("widen", where, d)
                if w == nv[1]: return nv
                self.purge(st, w)
                return ("sym", w)
            return nv
        if nv[0] in ("tup", "arr") and ov[0] == nv[0] and len(nv[1]) == len(ov[1]):
            return (nv[0], tuple(self.widen_val(st, a, b, where + (i,), d + 1) for i, (a, b) in enumerate(zip(nv[1], ov[1]))))
        if nv[0] == "adt" and ov[0] == "adt" and nv[1] == ov[1] and nv[2] == ov[2] and len(nv[4]) == len(ov[4]):
            return nv[:4] + (tuple(self.widen_val(st, a, b, where + (i,), d + 1) for i, (a, b) in enumerate(zip(nv[4], ov[4]))),)
        if nv[0] == "ovr":
            # nested override growth
            od = dict(ov[2]) if ov[0] == "ovr" else {}
            items = tuple((k, self.widen_val(st, x, od[k], where + (repr(k),), d + 1) if k in od else x) for k, x in nv[2])
            return ("ovr", nv[1], items)
        return nv

    def step(self, st):
        """run one basic block; -> list of successor states"""
        self.n_steps += 1
        fr = st.frames[-1]
        f = fr.fn
        stmts, term, cleanup = f.blocks[fr.bb]
        rule = self.rule
        for s in stmts:
            k = s[0]
            if k == "=":
                fr.line = s[3][1]
                v = self.rvalue(st, s[2], s[3])
                dst = self.resolve(st, s[1])
                if rule and rule.wants_assign and (dst[0][0] != "L" or dst[1]):
                    rule.on_assign(self, st, dst, v, s[3], s[2])
                self.write(st, dst, v)
            elif k == "dead":
                if s[1] in fr.locals:
                    fr.own(); del fr.locals[s[1]]
            elif k == "sd":
                dst = self.resolve(st, s[1])
                old = self.read(st, dst)
                self.write(st, dst, ("ovr", sym("hav", "setdiscr"), (("discr", ("int", s[2])),)))
        k = term[0]
        if k == "goto": return self.goto(st, term[1])
        if k == "switch": return self.do_switch(st, term)
        if k == "call": return self.do_call(st, term)
        if k == "return":
            v = fr.locals.get(0, UNIT)
            return self.do_return(st, v)
        if k == "drop":
            return self.do_drop(st, term)
        if k == "assert":
            c = self.operand(st, term[1])
            want = 1 if term[2] else 0
            if rule and rule.on_assert:
                rule.on_assert(self, st, term, c, want)
            if not self.assume_in(st, c, frozenset((want,))):
                return []
            return self.goto(st, term[3])
        return []

    def do_return(self, st, v):
        fr = st.frames.pop()
        if not st.frames:
            if self.rule and self.rule.on_final: self.rule.on_final(self, st, v)
            self.finals.append((st, v)); self.n_finals += 1
            return []
        self.write(st, fr.dest, v)
        if fr.onret:
            r = fr.onret(self, st, v, fr)
            if r is not None: return r
        if fr.target is None: return []
        if fr.target == "resume": return [st]
        return self.goto_ret(st, fr.target)

    def goto_ret(self, st, target):
        # returning is a join of the callee's exits: merge states
        fr = st.frames[-1]
        fr.bb = target
        if target in fr.fn.loops: self.widen(st, fr, target)
        k = self.key(st)
        if k in self.seen:
            self.n_merge += 1
            return []
        self.seen[k] = True
        return [st]

    def do_switch(self, st, term):
        v = self.operand(st, term[1])
        v = self.as_int(v)
        fr = st.frames[-1]
        fr.line = term[5][1]
        cv = st.val_int(v)
        targets, other = term[3], term[4]
        if cv is not None:
            for val, bb in targets:
                if val == cv: return self.goto(st, bb)
            return self.goto(st, other)
        t = self.p.ty(term[2])
        if v[0] == "sym":
            if t[0] == "prim": self.typed(st, v, t[1]) if self.domain(st, v[1]) == FULL else None
        out = []
        vals = frozenset(x[0] for x in targets)
        ot = self.fn_block_unreachable(fr.fn, other)
        for val, bb in targets:
            s2 = st.fork()
            if self.assume_in(s2, v, frozenset((val,))):
                if self.rule and self.rule.on_branch: self.rule.on_branch(self, s2, v, val, term)
                out += self.goto(s2, bb)
        if not ot:
            if self.assume_not(st, v, vals):
                if self.rule and self.rule.on_branch: self.rule.on_branch(self, st, v, None, term)
                out += self.goto(st, other)
        return out

    def fn_block_unreachable(self, f, bb):
        b = f.blocks[bb]
        return b[1][0] == "unreachable" and not b[0]

    def do_drop(self, st, term):
        fr = st.frames[-1]
        if self.rule and self.rule.on_drop:
            p = self.resolve(st, term[1])
            ty = self.p.subst(self.p.ty(term[2]), fr.subst)
            fr.line = term[5][1]
            r = self.rule.on_drop(self, st, p, ty, term)
            if r is not None: return r
        if self.drops:
            p = self.resolve(st, term[1])
            ty = self.p.subst(self.p.ty(term[2]), fr.subst)
            return self.run_drops(st, p, ty, term[3])
        return self.goto(st, term[3])

    # ---------------------------------------------------------- drop glue: run the local Drop impls a value contains
    def drop_impl(self, ty):
        r = self.p.find_impl("std::ops::Drop", ty)
        if r:
            it = r[0]["ix"].get("drop")
            if it and it[2] in self.p.fns: return self.p.fns[it[2]], r[1]
        return None

    def needs_drop(self, ty, seen=()):
        m = self.__dict__.setdefault("_needs", {})
        if ty in m: return m[ty]
        if ty in seen or len(seen) > 12: return False
        r = False
        if ty[0] == "adt":
            if self.drop_impl(ty): r = True
            elif ty[1] in ("std::boxed::Box",): r = bool(ty[2]) and self.needs_drop(ty[2][0], seen + (ty,))
            elif ty[1].startswith("std::sync::") or ty[1].startswith("std::rc::"): r = False
            else:
                a = self.p.adts.get(ty[1])
                if a:
                    sub = dict(zip(a.get("generics", ()), ty[2]))
                    r = any(self.needs_drop(self.p.subst(self.p.ty(f[1]), sub), seen + (ty,)) for v in a["variants"] for f in v[2])
        elif ty[0] == "tuple": r = any(self.needs_drop(x, seen + (ty,)) for x in ty[1])
        elif ty[0] == "closure" : r = False
        if not seen: m[ty] = r
        return r

    def drop_plan(self, st, path, ty, d=0):
        """-> [(state, [(fn, subst, path)])]"""
        if d > 8 or not self.needs_drop(ty): return [(st, [])]
        if ty[0] == "tuple":
            out = [(st, [])]
            for i, x in enumerate(ty[1]):
                nxt = []
                for s, l in out:
                    for s2, l2 in self.drop_plan(s, (path[0], path[1] + (("f", i, str(i), None, None),)), x, d + 1): nxt.append((s2, l + l2))
                out = nxt
            return out
        if ty[1] == "std::boxed::Box":
            return self.drop_plan(st, self.deref_path(self.read(st, path)), ty[2][0], d + 1)
        di = self.drop_impl(ty)
        out = [(st, [(di[0], di[1], path)] if di else [])]
        a = self.p.adts.get(ty[1])
        if not a: return out
        sub = dict(zip(a.get("generics", ()), ty[2]))
        def fields(s, l, vi, name):
            o = [(s, l)]
            for i, f in enumerate(a["variants"][vi][2]):
                ft = self.p.subst(self.p.ty(f[1]), sub)
                if not self.needs_drop(ft): continue
                n = []
                for s1, l1 in o:
                    for s2, l2 in self.drop_plan(s1, (path[0], path[1] + (("f", i, f[0], name, vi if name else None),)), ft, d + 1): n.append((s2, l1 + l2))
                o = n
            return o
        if a["kind"] == "enum":
            res = []
            for s, l in out:
                v = self.read(s, path)
                dv = self.discr(s, v, ty[1])
                k = s.val_int(dv)
                for vi, vr in enumerate(a["variants"]):
                    if k is not None and a["discr"][vi] != k: continue
                    s2 = s.fork() if k is None else s
                    if k is None and not self.assume_in(s2, dv, frozenset((a["discr"][vi],))): continue
                    res += fields(s2, l, vi, vr[0])
            return res
        res = []
        for s, l in out: res += fields(s, l, 0, None)
        return res

    def run_drops(self, st, path, ty, target):
        out = []
        for s, calls in self.drop_plan(st, path, ty):
            calls = [c for c in calls if not any(f.fn is c[0] for f in s.frames)]
            if not calls:
                out += self.goto(s, target); continue
            for i in range(len(calls) - 1, -1, -1):
                fn, sb, p = calls[i]
                self.push(s, fn, [("ref", p, 1)], dict(sb), (("B", "_dropret"), ()), target if i == len(calls) - 1 else "resume")
            out.append(s)
        return out

    # ---------------------------------------------------------- calls
    def do_call(self, st, term):
        fr = st.frames[-1]
        info = term[1]
        fr.line = term[6][1]
        args = [self.operand(st, a) for a in term[2]]
        dest = self.resolve(st, term[3])
        return self.call(st, info, args, dest, term[4], (fr.fn.key, fr.bb), term)

    def finish(self, st, dest, target, val):
        """assign the result of a modelled call and continue"""
        self.write(st, dest, val)
        if target is None: return []
        return self.goto(st, target)

    def call(self, st, info, args, dest, target, site, term=None, depth=0):
        fr = st.frames[-1]
        p = self.p
        if "op" in info:
            v = self.operand(st, info["op"])
            return self.call_value(st, v, args, dest, target, site, term)
        targs = [p.subst(p.ty(x), fr.subst) for x in info.get("args", ())]
        tgt_id, tgt_n, tgt_args = info["id"], info["n"], targs
        if "res" in info:
            r = info["res"]
            tgt_id, tgt_n = r["id"], r["n"]
            tgt_args = [p.subst(p.ty(x), fr.subst) for x in r["args"]]
        elif info.get("trait") and not info.get("dflt"):
            # resolve through the substitution
            if targs:
                im = p.find_impl(info["trait"], targs[0], targs)
                if im:
                    it = im[0]["ix"].get(info["name"])
                    if it and it[2] in p.fns:
                        f = p.fns[it[2]]
                        tgt_id, tgt_n = f.id, f.n
                        # impl-level generics from unification; method generics from the call
                        gens = [p.ty(g) for g in f.gens]
                        ngt = len(targs)
                        ms = dict(im[1])
                        own = [g for g in gens if g[0] == "param" and g[1] not in ms]
                        tail = targs[len(p.impls and [1]) and len(im[0]["targs"]):]
                        for g, t_ in zip(own, tail): ms[g[1]] = t_
                        tgt_args = [ms.get(g[1], g) if g[0] == "param" else g for g in gens]
        elif info.get("trait") and info.get("dflt") and targs:
            im = p.find_impl(info["trait"], targs[0], targs)
            if im:
                it = im[0]["ix"].get(info["name"])
                if it and it[2] in p.fns:
                    f = p.fns[it[2]]
                    tgt_id, tgt_n = f.id, f.n
                    gens = [p.ty(g) for g in f.gens]
                    tgt_args = [im[1].get(g[1], g) if g[0] == "param" else g for g in gens]
        c = Call()
        c.name, c.id, c.args, c.targs = tgt_n, tgt_id, args, tgt_args
        c.short = p.short(tgt_n)
        c.trait, c.mname = info.get("trait"), info.get("name") or tgt_n.split("::")[-1]
        c.site = site; c.dest = dest; c.target = target
        c.line = (term[6] if term else None); c.caller = fr.fn; c.info = info
        c.fn = p.fns.get(tgt_id)
        if self.rule:
            r = self.rule.on_call(self, st, c)
            if r is not None: return r
        # closures and fn items through Fn* traits
        if info.get("trait", "").split("::")[-1] in ("FnOnce", "FnMut", "Fn"):
            fv = args[0]
            tup = args[1] if len(args) > 1 else UNIT
            return self.call_value(st, fv, list(tup[1]) if tup[0] == "tup" else [tup], dest, target, site, term)
        m = MODELS.get(c.short)
        if m is None:
            m = METHOD_MODELS.get(c.mname) if (c.fn is None or not c.fn.local) else None
        if m:
            r = m(self, st, c)
            if r is not None: return r
        f = c.fn
        if f is not None and not f.coroutine and (not f.local or self.rule is None or not self.rule.opaque(self, c)):
            if len(st.frames) < self.max_depth and not self.recursive(st, f):
                sub = {}
                for g, t_ in zip((p.ty(g) for g in f.gens), tgt_args):
                    if g[0] == "param": sub[g[1]] = t_
                self.push(st, f, args, sub, dest, target)
                return [st]
        return self.unknown(st, c)

    def recursive(self, st, f):
        n = sum(1 for x in st.frames if x.fn is f)
        return n >= (self.rec if f.local else 3)

    def call_value(self, st, fv, args, dest, target, site, term, by_ref=None):
        """call a function value: closure, fn item, or unknown"""
        v = fv
        refpath = None
        while v[0] == "ref":
            refpath = v
            v = self.read(st, v[1])
        if v[0] == "clo":
            f = self.p.fns.get(v[1])
            if f is not None and not f.coroutine:
                t1 = self.p.ty(f.locals[1][0]) if f.argc >= 1 else ("other",)
                if t1[0] == "ref":
                    if refpath is None:
                        cell = ("B", ("clo", f.id, len(st.frames)))
                        st.heap[cell] = v
                        env = ("ref", (cell, ()), 1)
                    else: env = refpath
                else: env = v
                if len(st.frames) < self.max_depth and not self.recursive(st, f):
                    self.push(st, f, [env] + list(args), dict(v[3]), dest, target)
                    return [st]
        if v[0] == "fn":
            info = Engine.FNINFO[v[2]]
            # constructor fns of enums/structs
            ctor = self.ctor(info)
            if ctor:
                return self.finish(st, dest, target, ("adt", ctor[0], ctor[1], ctor[2], tuple(args)))
            return self.call(st, info, args, dest, target, site, term)
        c = Call()
        c.name = "<fn value>"; c.short = c.name; c.id = None; c.args = [fv] + list(args); c.targs = []
        c.trait = None; c.mname = "call"; c.site = site; c.dest = dest; c.target = target
        c.line = (term[6] if term else None); c.caller = st.frames[-1].fn; c.info = {}; c.fn = None
        if self.rule:
            r = self.rule.on_call(self, st, c)
            if r is not None: return r
        return self.unknown(st, c)

    def ctor(self, info):
        n = info.get("n", "")
        base, _, last = n.rpartition("::")
        base = self.p.short(base)
        a = self.p.adts.get(base)
        if a and last in a["vix"]: return (base, a["vix"][last], last)
        s = self.p.short(n)
        a = self.p.adts.get(s)
        if a and a["kind"] == "struct": return (s, 0, s.split("::")[-1])
        return None

    def unknown(self, st, c):
        """opaque call: havoc what it can mutate, name the result"""
        ct = self.ctor(c.info) if c.info and "n" in c.info else None
        if ct: return self.finish(st, c.dest, c.target, ("adt", ct[0], ct[1], ct[2], tuple(c.args)))
        self.opaque_calls[c.short] = self.opaque_calls.get(c.short, 0) + 1
        muts = []
        for a in c.args: self.mut_refs(st, a, muts)
        if c.target is None:
            self.diverge.append((st, c))
            return []
        if not muts and not IMPURE(c):
            r = ("sym", T("call", c.short, *[self.snapshot(st, a) for a in c.args]))
            if DEPTH[r[1]] > 14: r = self.fresh(st, "site", c.short, c.site[0], c.site[1])
        else:
            for i, pth in enumerate(muts): self.havoc(st, pth, c, i)
            r = self.fresh(st, "site", c.short, c.site[0], c.site[1])
        return self.finish(st, c.dest, c.target, r)

    def havoc(self, st, path, c, i):
        root = path[0]
        if root[0] == "C": return
        v = self.fresh(st, "hav", c.short, c.site[0], c.site[1], i)
        self.write(st, path, v)


IMPURE_NAMES = ("::poll", "::lock", "::load", "::store", "::swap", "::now", "::next", "::recv", "::send", "::new",
                "::channel", "::with_capacity", "::poll_", "::try_send", "::notify", "::wake", "is_canceled", "is_closed", "strong_count",
                "borrow_mut", "::with", "::default")
def IMPURE(c):
    n = c.short
    m = c.mname
    if m.startswith("poll") or m in ("call", "call_mut", "call_once", "size_hint", "is_end_stream"): return m not in ("size_hint", "is_end_stream")
    return any(n.endswith(x) or ("::poll_" == x and x in n) for x in IMPURE_NAMES)

MODELS = {}
METHOD_MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
def mmodel(*names):
    def d(f):
        for n in names: METHOD_MODELS[n] = f
        return f
    return d

class Rule:
    """what a property plugs into the interpreter"""
    wants_assign = False
    on_fact = None
    on_final = None
    on_drop = None
    on_branch = None
    on_assert = None
    keep_fact = None
    def on_call(self, eng, st, c): return None
    def on_assign(self, eng, st, path, v, site, rv): pass
    def opaque(self, eng, c): return False

import models  # noqa: E402  (registers the library models)
