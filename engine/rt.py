"""What every rule module uses: program access, obligations, violations, evidence."""
import json, os, time
import build, mir, absint
from absint import *

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.viol = []          # (key, text)
        self.obl = {}           # obligation group -> count
        self.notes = []
        self.rules = []
        self.fns = set()
        self.steps = 0
        self.paths = 0
        self._p = {}
        self.t0 = time.time()

    def prog(self, cfg="a"):
        if cfg not in self._p:
            self._p[cfg] = mir.Program(build.dump(cfg))
        return self._p[cfg]

    def engine(self, cfg="a", rule=None, **kw):
        e = Engine(self.prog(cfg), rule, **kw)
        self._engs = getattr(self, "_engs", []); self._engs.append(e)
        return e

    def rule(self, text):
        if text not in self.rules: self.rules.append(text)

    def ok(self, group, n=1):
        self.obl[group] = self.obl.get(group, 0) + n

    def bad(self, key, text, group=None):
        """a violation; key identifies the instance without line numbers"""
        if group: self.ok(group)
        if all(k != key for k, _ in self.viol): self.viol.append((key, text))

    def check(self, cond, group, key, text):
        self.ok(group)
        if not cond: self.bad(key, text)
        return cond

    def floor(self, group, n):
        have = self.obl.get(group, 0)
        if have < n:
            self.bad("floor:" + group, "only %d instances of '%s' were found, at least %d are required: the rule no longer sees the code it is about" % (have, group, n))

    def note(self, s): self.notes.append(s)

    def par(self, jobs, n=6):
        """run independent parts of a rule (callables) in forked processes and take over what they found, in order"""
        import os, pickle, tempfile, signal, shutil
        self.prog()
        d = tempfile.mkdtemp(prefix="hvpar"); pids = {}; todo = list(enumerate(jobs))
        def child(i, job):
            pid = os.fork()
            if pid: pids[pid] = i; return
            try:
                signal.alarm(780)
                self.viol, self.obl, self.notes, self.rules, self._engs, self.fns, self.steps, self.paths = [], {}, [], [], [], set(), 0, 0
                try: job(); ex = None
                except BaseException as e: ex = (type(e).__name__, "%s\n%s" % (e, __import__("traceback").format_exc()[-1500:]))
                self.finish_engines()
                with open("%s/%d" % (d, i), "wb") as f: pickle.dump((self.viol, self.obl, self.notes, self.rules, self.fns, self.steps, self.paths, ex), f)
            finally: os._exit(0)
        try:
            while todo or pids:
                while todo and len(pids) < n: child(*todo.pop(0))
                pid, _ = os.wait(); pids.pop(pid, None)
            for i in range(len(jobs)):
                p = "%s/%d" % (d, i)
                if not os.path.exists(p) or not os.path.getsize(p): raise RuntimeError("part %d of the rule did not finish" % i)
                viol, obl, notes, rules, fns, steps, paths, ex = pickle.load(open(p, "rb"))
                for g, k in obl.items(): self.ok(g, k)
                for k, t in viol: self.bad(k, t)
                for r in rules: self.rule(r)
                self.notes += notes; self.fns |= fns; self.steps += steps; self.paths += paths
                if ex:
                    if ex[0] == "AnchorError": raise mir.AnchorError(ex[1])
                    if ex[0] == "Limit": raise absint.Limit(ex[1])
                    raise RuntimeError("%s: %s" % ex)
        finally:
            for pid in pids:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
            shutil.rmtree(d, ignore_errors=True)

    def finish_engines(self):
        for e in getattr(self, "_engs", []):
            self.steps += e.n_steps; self.paths += e.n_finals
            self.fns |= e.fns_seen

def where(c_or_span):
    if c_or_span is None: return "?"
    if isinstance(c_or_span, (list, tuple)): return "%s:%s" % (c_or_span[0], c_or_span[1])
    return str(c_or_span)

# ---- values
def init(name): return ("sym", T("init", name))
def cell(name): return ("B", name)
def mref(name): return ("ref", (("B", name), ()), 1)
def sref(name): return ("ref", (("B", name), ()), 0)

def some(v): return ("adt", "std::option::Option", 1, "Some", (v,))
NONE = ("adt", "std::option::Option", 0, "None", ())
def ok(v): return ("adt", "std::result::Result", 0, "Ok", (v,))
def err(v): return ("adt", "std::result::Result", 1, "Err", (v,))
def ready(v): return ("adt", "std::task::Poll", 0, "Ready", (v,))
PENDING = ("adt", "std::task::Poll", 1, "Pending", ())

def is_adt(v, variant): return v[0] == "adt" and v[3] == variant
def unwrap(v, *variants):
    """payload under nested variants, or None"""
    for x in variants:
        if not is_adt(v, x): return None
        v = v[4][0] if v[4] else UNIT
    return v

def fget(P, st, v, adt, name, variant=0, eng=None):
    a = P.adt(adt) if isinstance(adt, str) else adt
    vi = a["vix"][variant] if isinstance(variant, str) else variant
    vn = a["variants"][vi][0] if a["kind"] == "enum" else None
    ix = P.field_ix(a, vi, name)
    return eng.project(st, v, ("f", ix, name, vn, vi if a["kind"] == "enum" else None))

def mk(P, adt, variant=None, **fields):
    """build an ADT value; missing fields become named symbols"""
    a = P.adt(adt) if isinstance(adt, str) else adt
    vi = 0 if variant is None else a["vix"][variant]
    vn, _, fl = a["variants"][vi]
    vals = []
    known = {f[0] for f in fl}
    for k in fields:
        if k.lstrip("_") not in known and k not in known: raise mir.AnchorError("field %s of %s" % (k, a["path"]))
    for f in fl:
        k = f[0] if f[0] in fields else "_" + f[0]
        vals.append(fields[k] if k in fields else init("%s.%s" % (a["path"].split("::")[-1], f[0])))
    return ("adt", a["path"], vi, vn, tuple(vals))

def terms_in(v, out=None):
    """all term ids occurring in a value (deep)"""
    if out is None: out = set()
    def walk(x):
        if not isinstance(x, tuple) or not x: return
        if x[0] == "sym" and len(x) == 2 and isinstance(x[1], int):
            if x[1] not in out:
                out.add(x[1])
                for y in TERMS[x[1]][1:]: walk(y)
            return
        for y in x:
            if isinstance(y, tuple): walk(y)
    walk(v)
    return out

def linear(v):
    """integer value as {atom: coeff, 1: const} over leaf values, or None.  Payloads of checked
    operations, casts and From conversions denote the exact result."""
    if v[0] in ("int", "bool"): return {1: v[1]}
    if v[0] != "sym": return None
    t = TERMS[v[1]]
    k = t[0]
    def add(a, b, s=1):
        r = dict(a)
        for x, y in b.items(): r[x] = r.get(x, 0) + s * y
        return {x: y for x, y in r.items() if y or x == 1}
    def mul(a, b):
        ca = a.get(1, 0) if set(a) <= {1} else None
        cb = b.get(1, 0) if set(b) <= {1} else None
        if ca is not None: return {x: y * ca for x, y in b.items()}
        if cb is not None: return {x: y * cb for x, y in a.items()}
        return None
    if k == "bin" and t[1] in ("Add", "Sub", "Mul", "AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        a, b = linear(t[2]), linear(t[3])
        if a is not None and b is not None:
            if t[1].startswith("Add"): return add(a, b)
            if t[1].startswith("Sub"): return add(a, b, -1)
            m = mul(a, b)
            if m is not None: return m
    if k == "bin" and t[1] == "Shl":
        a, b = linear(t[2]), linear(t[3])
        if a is not None and b is not None and set(b) == {1}: return {x: y << b[1] for x, y in a.items()}
    if k == "fld" and t[1][0] == "sym":
        u = TERMS[t[1][1]]
        if u[0] == "call" and u[1] in ("checked_add", "checked_sub", "checked_mul") and t[3] == 0:
            a, b = linear(u[2]), linear(u[3])
            if a is not None and b is not None:
                if u[1] == "checked_add": return add(a, b)
                if u[1] == "checked_sub": return add(a, b, -1)
                m = mul(a, b)
                if m is not None: return m
        if u[0] == "bin" and u[1].endswith("WithOverflow") and t[3] == 0:
            return linear(("sym", T("bin", u[1], u[2], u[3])))
    if k == "cast" and t[2] in ("u64", "usize", "u128"): return linear(t[1])
    if k == "call" and (t[1].endswith("::from") or t[1].endswith("::into")) and len(t) == 3:
        a = linear(t[2])
        if a is not None: return a
    return {v: 1, 1: 0}

# ---- evaluation of terms over one small-domain leaf (value-set analysis)
def ev(v, env):
    """integer value of v when the leaves in env have the given values, or None"""
    if v[0] in ("int", "bool"): return v[1]
    if v in env: return env[v]
    if v[0] != "sym": return None
    t = TERMS[v[1]]; k = t[0]
    if k == "not":
        a = ev(t[1], env); return None if a is None else 1 - a
    if k == "cmp":
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None: return None
        return int(a == b if t[1] == "Eq" else a < b)
    if k == "bin":
        a, b = ev(t[2], env), ev(t[3], env)
        if a is None or b is None: return None
        op = t[1].replace("Unchecked", "").replace("WithOverflow", "")
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                    "BitXor": lambda: a ^ b, "Div": lambda: a // b, "Rem": lambda: a % b, "Shl": lambda: a << b, "Shr": lambda: a >> b}[op]()
        except (KeyError, ZeroDivisionError): return None
    if k == "fld" and t[3] == 0 and t[1][0] == "sym":
        u = TERMS[t[1][1]]
        if u[0] == "bin" and u[1].endswith("WithOverflow"): return ev(t[1], env)
    if k == "cast":
        a = ev(t[1], env)
        if a is None: return None
        r = absint.INT_RNG.get(t[2])
        return a & r[1] if r and r[0] == 0 else a
    if k in ("deref",): return ev(t[1], env)
    if k == "call" and len(t) >= 3:
        a = ev(strip_ref(t[2]), env)
        if a is None: return None
        f = BYTE_FN.get(t[1].split("::")[-1])
        if f and len(t) == 3: return int(f(a))
    return None

def strip_ref(v):
    while v[0] == "rf": v = v[1]
    return v

def _u8(f): return lambda a: f(chr(a)) if a < 128 else False
BYTE_FN = {
    "is_ascii_digit": _u8(lambda c: c in "0123456789"), "is_ascii_hexdigit": _u8(lambda c: c in "0123456789abcdefABCDEF"),
    "is_ascii_alphabetic": _u8(str.isalpha), "is_ascii_alphanumeric": _u8(str.isalnum), "is_ascii_uppercase": _u8(str.isupper),
    "is_ascii_lowercase": _u8(str.islower), "is_ascii_graphic": lambda a: 33 <= a <= 126, "is_ascii_whitespace": lambda a: a in (9, 10, 12, 13, 32),
    "is_ascii_control": lambda a: a < 32 or a == 127, "is_ascii": lambda a: a < 128, "is_ascii_punctuation": _u8(lambda c: 33 <= ord(c) <= 126 and not c.isalnum()),
    "to_ascii_lowercase": lambda a: a + 32 if 65 <= a <= 90 else a, "to_ascii_uppercase": lambda a: a - 32 if 97 <= a <= 122 else a,
    "from": lambda a: a, "into": lambda a: a,
}

def leaf_only(i, leaf):
    return absint.LEAVES[i] == frozenset((leaf,)) or absint.LEAVES[i] <= frozenset((leaf,))

def value_set(st, v, dom=range(256)):
    """values of the leaf term v consistent with every fact that depends on it alone; and whether all were decided"""
    lf = v[1]
    base = absint.LEAVES[lf]
    rel = [(i, c) for i, c in st.facts.items() if absint.LEAVES[i] and absint.LEAVES[i] <= base and i != lf]
    out, exact = set(), True
    c0 = st.facts.get(lf)
    for x in dom:
        if c0 is not None and c_empty(c_meet_in(c0, frozenset((x,)))): continue
        good = True
        for i, c in rel:
            y = ev(("sym", i), {v: x})
            if y is None:
                if lf in terms_in(("sym", i)): exact = False
                continue
            if c_empty(c_meet_in(c, frozenset((y,)))): good = False; break
        if good: out.add(x)
    return out, exact

# ---- difference constraints known on a path
def lin_sub(a, b):
    r = dict(a)
    for x, y in b.items(): r[x] = r.get(x, 0) - y
    return {x: y for x, y in r.items() if y or x == 1}

def known_le0(st):
    """linear forms known to be <= 0"""
    out = []
    for i, c in st.facts.items():
        t = TERMS[i]
        if t[0] == "cmp":
            v = c_single(c)
            if v is None: continue
            a, b = linear(t[2]), linear(t[3])
            if a is None or b is None: continue
            if t[1] == "Lt":
                d = lin_sub(a, b) if v else lin_sub(b, a)
                if v: d[1] = d.get(1, 0) + 1
                out.append(d)
            elif t[1] == "Eq" and v:
                out.append(lin_sub(a, b)); out.append(lin_sub(b, a))
        if t[0] == "discr" and t[1][0] == "sym" and TERMS[t[1][1]][:2] == ("bin", "Cmp"):
            a, b = linear(TERMS[t[1][1]][2]), linear(TERMS[t[1][1]][3])   # Ordering: Less = -1 (255), Equal = 0, Greater = 1
            if a is None or b is None or c[0] != "in": continue
            if c[1] <= {255, -1, 0}: d = lin_sub(a, b); d[1] = d.get(1, 0) + (0 if 0 in c[1] else 1); out.append(d)
            if c[1] <= {1, 0}: d = lin_sub(b, a); d[1] = d.get(1, 0) + (0 if 0 in c[1] else 1); out.append(d)
            continue
        l = linear(("sym", i))
        if l is None: continue
        if c[0] == "in" and c[1]: lo, hi = min(c[1]), max(c[1])
        elif c[0] == "rng": lo, hi = c[1], c[2]
        else: continue
        if hi is not None:
            d = dict(l); d[1] = d.get(1, 0) - hi; out.append(d)
        if lo is not None:
            d = {x: -y for x, y in l.items()}; d[1] = d.get(1, 0) + lo; out.append(d)
    return out

def entails_le(st, a, b):
    """do the facts of this path imply a <= b ?"""
    la, lb = linear(a), linear(b)
    if la is None or lb is None: return False
    g = lin_sub(la, lb)
    if set(k for k, y in g.items() if y) <= {1}: return g.get(1, 0) <= 0
    ks = known_le0(st)
    for f in ks:
        d = lin_sub(g, f)
        if set(k for k, y in d.items() if y) <= {1} and d.get(1, 0) <= 0: return True
    # chain of two facts
    for f in ks:
        d = lin_sub(g, f)
        if sum(1 for k, y in d.items() if y and k != 1) > 2: continue
        for h in ks:
            e = lin_sub(d, h)
            if set(k for k, y in e.items() if y) <= {1} and e.get(1, 0) <= 0: return True
    return False

def upper_bound(st, v, eng=None):
    """constant upper bound of v implied by the facts, or None"""
    l = linear(v)
    if l is None: return None
    if set(k for k, y in l.items() if y) <= {1}: return l.get(1, 0)
    best = None
    for f in known_le0(st):
        d = lin_sub(l, f)
        if set(k for k, y in d.items() if y) <= {1}:
            c = d.get(1, 0)
            if best is None or c < best: best = c
    return best

# ---- event recording
class Rec(Rule):
    """records selected calls as events in st.aut (a tuple) and forks their outcomes.

    handlers: list of (predicate(c, e, st), handler(e, st, c)); a handler returns
      None                        -> default treatment of the call
      a list of (value, event)    -> one successor per entry (event None: not recorded)
      "stop"                      -> the path ends here (recorded in self.stopped)
    """
    def __init__(self, handlers, opaque=(), limit=60):
        self.handlers = handlers
        self.stopped = []
        self.opq = opaque
        self.limit = limit
    def on_call(self, e, st, c):
        for pred, h in self.handlers:
            if not pred(c, e, st): continue
            r = h(e, st, c)
            if r is None: continue
            if r == "stop":
                self.stopped.append((st, c)); return []
            if isinstance(r, tuple) and r and r[0] == "states": return r[1]
            out = []
            for i, (v, evt) in enumerate(r):
                s = st.fork() if i < len(r) - 1 else st
                if callable(v): v = v(s)
                if v is DIE: continue
                if evt is not None:
                    s.aut = (s.aut or ()) + (evt,)
                    if len(s.aut) > self.limit: raise Limit("too many events on one path: %s" % (s.aut[-4:],))
                out += e.finish(s, c.dest, c.target, v)
            return out
        return None
    def opaque(self, e, c):
        return any(c.short.endswith(x) for x in self.opq)

DIE = object()

def method(name, trait=None):
    """call of a method by its name (and trait, by last path component)"""
    def p(c, e, st):
        return c.mname == name and (trait is None or (c.trait or "").split("::")[-1] == trait)
    return p

def named(*suffixes):
    def p(c, e, st):
        return any(c.short == s or c.short.endswith("::" + s) for s in suffixes)
    return p

def recv(e, st, c, i=0):
    """content of the receiver of a call, references stripped"""
    v = c.args[i]
    n = 0
    while n < 8:
        if v[0] == "ref": v = e.read(st, v[1])
        elif v[0] == "adt" and v[1].endswith("::Pin") and len(v[4]) == 1: v = v[4][0]
        else: break
        n += 1
    return v

def recv_path(e, st, c, i=0):
    """heap path of the receiver, through reborrows"""
    v = c.args[i]
    p = None
    n = 0
    while v[0] == "ref" and n < 8:
        p = v[1]; v = e.read(st, v[1]); n += 1
        if v[0] == "adt" and v[1].endswith("Pin") : v = v[4][0]
    return p

def fields_on(path):
    """names of the struct fields on a path"""
    return [x[2] for x in path[1] if x[0] == "f"] if path else []

def dump_paths(e, rule=None, n=60):
    """debug print of the final states"""
    for st, v in e.finals[:n]:
        print("RET", show(v)[:200])
        for x in (st.aut or ()): print("     ev", *[show(y)[:120] if isinstance(y, tuple) else y for y in (x if isinstance(x, tuple) else (x,))])
        for i, c in st.facts.items(): print("        ", show_t(i)[:140], c if len(str(c)) < 60 else "…")

def bools(e, st, v):
    """[(0/1, state)] possible truth values of v"""
    if v[0] in ("bool", "int"): return [(v[1], st)]
    k = st.val_int(v)
    if k is not None: return [(k, st)]
    out = []
    for b in (1, 0):
        s = st.fork()
        if e.assume_in(s, v, frozenset((b,))): out.append((b, s))
    return out
