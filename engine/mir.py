"""Loads the driver's dump and indexes it: functions, types, ADTs, impls."""
import json, re
from functools import lru_cache

class Fn:
    __slots__ = ("id", "n", "name", "kind", "argc", "locals", "blocks", "span", "local", "gens", "selfty",
                 "trait", "intrait", "root", "parent", "raw", "preds", "loops", "live", "borrowed", "promoted",
                 "spread", "coroutine", "pub", "reach", "unsafe", "abi", "dbg", "key", "backs", "joins")

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types_raw = d["types"]
        self._ty = {}
        self.adts = {a["path"]: a for a in d["adts"]}
        for a in self.adts.values():
            a["vix"] = {v[0]: i for i, v in enumerate(a["variants"])}
            a["fix"] = [{f[0]: i for i, f in enumerate(v[2])} for v in a["variants"]]
            a["discr"] = [v[1] for v in a["variants"]]
            a["byd"] = {v[1]: i for i, v in enumerate(a["variants"])}
        self.impls = d["impls"]
        self.consts = {}
        for n, v, sp, im in d["consts"]:
            self.consts[n] = (v, sp, im)
        self.fns = {}
        self.promoted = {}
        self.by_name = {}
        self.by_short = {}
        for r in d["fns"]:
            f = Fn()
            f.raw = r
            f.id, f.n, f.name, f.kind, f.argc = r["id"], r["n"], r["name"], r["kind"], r["argc"]
            f.locals, f.blocks, f.span, f.local = r["locals"], r["blocks"], r["span"], r["local"]
            f.gens = r["gens"]
            f.selfty = r.get("self")
            f.trait = r.get("trait"); f.intrait = r.get("intrait")
            f.root = r.get("root"); f.parent = r.get("parent")
            f.promoted = r.get("promoted"); f.spread = r.get("spread")
            f.coroutine = r.get("coroutine", False)
            f.pub = r.get("pub", False); f.reach = r.get("reach", False)
            f.unsafe = r.get("unsafe", False); f.abi = r.get("abi")
            f.dbg = r.get("dbg") or []
            f.preds = None
            if f.promoted is not None:
                f.key = f.id + "!p%d" % f.promoted
                self.promoted[(f.id, f.promoted)] = f
                continue
            f.key = f.id
            self.fns[f.id] = f
            self.by_name.setdefault(f.n, []).append(f)
        self.impl_ix = {}
        for im in self.impls:
            self.impl_ix.setdefault(im["trait"], []).append(im)
            im["ix"] = {i[0]: i for i in im["items"]}

    # ---- types as nested tuples
    def ty(self, i):
        if i is None:
            return ("other", "?")
        t = self._ty.get(i)
        if t is None:
            r = self.types_raw[i]
            k = r[0]
            if k == "adt": t = ("adt", r[1], tuple(self.ty(x) for x in r[2]))
            elif k in ("ref", "ptr"): t = (k, r[1], self.ty(r[2]))
            elif k == "tuple": t = ("tuple", tuple(self.ty(x) for x in r[1]))
            elif k == "slice": t = ("slice", self.ty(r[1]))
            elif k == "array": t = ("array", self.ty(r[1]), r[2])
            elif k == "fndef": t = ("fndef", r[1], r[2], tuple(self.ty(x) for x in r[3]))
            elif k == "closure": t = ("closure", r[1])
            else: t = tuple(r)
            self._ty[i] = t
        return t

    def subst(self, t, s):
        if not s: return t
        k = t[0]
        if k == "param": return s.get(t[1], t)
        if k == "adt": return ("adt", t[1], tuple(self.subst(x, s) for x in t[2])) if t[2] else t
        if k in ("ref", "ptr"): return (k, t[1], self.subst(t[2], s))
        if k == "tuple": return ("tuple", tuple(self.subst(x, s) for x in t[1])) if t[1] else t
        if k == "slice": return ("slice", self.subst(t[1], s))
        if k == "array": return ("array", self.subst(t[1], s), t[2])
        if k == "fndef": return ("fndef", t[1], t[2], tuple(self.subst(x, s) for x in t[3]))
        return t

    def unify(self, pat, t, s):
        """match impl-header type pat against concrete t, binding params into s."""
        if pat[0] == "param":
            if pat[1] in s: return s[pat[1]] == t
            s[pat[1]] = t
            return True
        if pat[0] == "other" : return True
        if pat[0] != t[0]: return False
        k = pat[0]
        if k == "adt":
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(self.unify(a, b, s) for a, b in zip(pat[2], t[2]))
        if k in ("ref", "ptr"): return pat[1] == t[1] and self.unify(pat[2], t[2], s)
        if k == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, s) for a, b in zip(pat[1], t[1]))
        if k == "slice": return self.unify(pat[1], t[1], s)
        if k == "array": return self.unify(pat[1], t[1], s)
        return pat == t

    def find_impl(self, trait, selfty, targs=None):
        """-> (impl, subst) for a local impl of trait for selfty, or None."""
        best = None
        for im in self.impl_ix.get(trait, ()):
            if im["neg"]: continue
            s = {}
            pats = [self.ty(x) for x in im["targs"]]
            ok = self.unify(pats[0], selfty, s) if pats else False
            if ok and targs:
                for p_, t_ in zip(pats[1:], targs[1:]):
                    if t_[0] in ("param", "other"): continue
                    if not self.unify(p_, t_, s): ok = False; break
            if not ok: continue
            # prefer the most specific header
            spec = 0 if pats[0][0] == "param" else 1
            if best is None or spec > best[2]:
                best = (im, s, spec)
        return best and best[:2]

    # ---- lookups
    def fn(self, suffix, kind=None, optional=False):
        """unique local fn whose pretty name ends with suffix (path-component aligned)."""
        c = [f for f in self.fns.values() if f.local and (f.n == suffix or f.n.endswith("::" + suffix) or
             self.short(f.n) == suffix or self.short(f.n).endswith("::" + suffix))]
        if len(c) == 1: return c[0]
        if optional and not c: return None
        raise AnchorError("function %s: %d candidates %s" % (suffix, len(c), [x.n for x in c][:6]))

    @staticmethod
    @lru_cache(maxsize=None)
    def short(n):
        """strip generic argument lists: a::B::<T>::f -> a::B::f ; keep <X as Y>::f with generics stripped"""
        out, depth, i = [], 0, 0
        # remove ::<...> and <...> after identifiers, but keep leading '<X as Y>'
        res = []
        while i < len(n):
            c = n[i]
            if c == "<":
                if i == 0 or (res and res[-1] == "<") or n[i-1] in "< ":
                    res.append(c); i += 1; continue
                # generic list: skip to the matching '>'
                d, j = 0, i
                while j < len(n):
                    if n[j] == "<": d += 1
                    elif n[j] == ">" and n[j-1] != "-":
                        d -= 1
                        if d == 0: break
                    j += 1
                if res[-2:] == [":", ":"]: res = res[:-2]
                i = j + 1
                continue
            res.append(c); i += 1
        return "".join(res)

    def trait_method(self, selfadt, trait, name, optional=False):
        """fn implementing trait::name for the ADT with path suffix selfadt."""
        c = []
        for tr, ims in self.impl_ix.items():
            if not (tr == trait or tr.endswith("::" + trait)): continue
            for im in ims:
                st = self.ty(im["self"])
                if st[0] == "adt" and (st[1] == selfadt or st[1].endswith("::" + selfadt)):
                    it = im["ix"].get(name)
                    if it and it[2] in self.fns: c.append(self.fns[it[2]])
        if len(c) == 1: return c[0]
        if optional and not c: return None
        raise AnchorError("%s for %s :: %s: %d candidates" % (trait, selfadt, name, len(c)))

    def adt(self, suffix):
        c = [a for p, a in self.adts.items() if p == suffix or p.endswith("::" + suffix)]
        l = [a for a in c if a["local"]]
        if len(c) == 1: return c[0]
        if len(l) == 1: return l[0]
        raise AnchorError("type %s: %d candidates %s" % (suffix, len(c), [x["path"] for x in c]))

    def field_ix(self, adt, variant, name):
        a = self.adt(adt) if isinstance(adt, str) else adt
        vi = a["vix"][variant] if isinstance(variant, str) else variant
        if name not in a["fix"][vi]:
            raise AnchorError("field %s of %s" % (name, a["path"]))
        return a["fix"][vi][name]

    # ---- per-function CFG info
    def prep(self, f):
        if f.preds is not None: return
        nb = len(f.blocks)
        succ = [self.succ(b[1]) for b in f.blocks]
        preds = [[] for _ in range(nb)]
        for i, ss in enumerate(succ):
            for s in ss: preds[s].append(i)
        f.preds = preds
        # DFS for back edges / loop heads
        color = [0] * nb
        heads = set()
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(succ[v])))
                    break
                if color[v] == 1: heads.add(v)
            else:
                color[u] = 2
                st.pop()
        f.loops = heads
        f.joins = {i for i in range(nb) if len(preds[i]) > 1}
        # borrowed locals and liveness of the others
        borrowed = set()
        use, dfn = [set() for _ in range(nb)], [set() for _ in range(nb)]
        for i, (stmts, term, _c) in enumerate(f.blocks):
            u, d = use[i], dfn[i]
            def rd(p):
                if p[0] not in d: u.add(p[0])
                for e in p[1]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d: u.add(e[1])
            def wr(p):
                if p[1]: rd(p)
                else: d.add(p[0])
            def op(o):
                if o[0] in ("cp", "mv"): rd(o[1])
            for s in stmts:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("use", "repeat"): op(r[1])
                    elif k in ("ref", "raw"):
                        rd(r[2])
                        if not any(e == "*" for e in r[2][1]): borrowed.add(r[2][0])
                    elif k == "cast": op(r[2])
                    elif k == "bin": op(r[2]); op(r[3])
                    elif k == "un": op(r[2])
                    elif k == "discr": rd(r[1])
                    elif k == "agg":
                        for o in r[2]: op(o)
                    wr(s[1])
                elif s[0] == "sd": rd(s[1])
                elif s[0] == "dead": d.add(s[1])
            k = term[0]
            if k == "switch": op(term[1])
            elif k == "drop": rd(term[1])
            elif k == "call":
                if "op" in term[1]: op(term[1]["op"])
                for a in term[2]: op(a)
                wr(term[3])
            elif k == "assert": op(term[1])
            elif k == "return":
                if 0 not in d: u.add(0)
        live = [set() for _ in range(nb)]
        ch = True
        order = list(range(nb - 1, -1, -1))
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in succ[i]: o |= live[s]
                n = use[i] | (o - dfn[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        f.live = live
        f.borrowed = borrowed

    @staticmethod
    def succ(t):
        k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return [x[1] for x in t[3]] + [t[4]]
        if k == "drop": return [t[3]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[3]]
        return []

class AnchorError(Exception):
    pass
