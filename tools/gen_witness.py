#!/usr/bin/env python3
"""Development tool: writes witness/src/api.rs, one caller per public function, method and
trait impl, from rustdoc's JSON of the tree it is run on (the API being promised is the one
of the commit this work started from; the committed file is what the check compiles)."""
import json, os, subprocess, sys, itertools, re
REPO = os.environ.get("HV_REPO", "/repo"); OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness", "src", "api.rs")
F = ["client", "server", "http1", "http2"]
EXT = {"Future": "std::future::Future", "Request": "hyper::Request", "Response": "hyper::Response", "Result": "std::result::Result", "Option": "Option",
       "Send": "Send", "Sync": "Sync", "Unpin": "Unpin", "Sized": "Sized", "Into": "Into", "Duration": "std::time::Duration", "Instant": "std::time::Instant", "Pin": "std::pin::Pin", "Context": "std::task::Context",
       "Poll": "std::task::Poll", "Body": "hyper::body::Body", "Box": "Box", "Error": "std::error::Error", "Bytes": "hyper::body::Bytes", "Buf": "hyper::body::Buf",
       "Frame": "hyper::body::Frame", "SizeHint": "hyper::body::SizeHint", "HeaderMap": "hyper::HeaderMap", "Arc": "std::sync::Arc", "Rc": "std::rc::Rc",
       "Debug": "std::fmt::Debug", "Display": "std::fmt::Display", "Formatter": "std::fmt::Formatter", "Clone": "Clone", "Default": "Default", "From": "From", "TryFrom": "TryFrom",
       "PartialEq": "PartialEq", "Eq": "Eq", "Hash": "std::hash::Hash", "Ord": "Ord", "PartialOrd": "PartialOrd", "AsRef": "AsRef", "Deref": "std::ops::Deref", "DerefMut": "std::ops::DerefMut",
       "MaybeUninit": "std::mem::MaybeUninit", "Vec": "Vec", "String": "String", "FnMut": "FnMut", "Fn": "Fn", "FnOnce": "FnOnce", "IoSlice": "std::io::IoSlice", "Copy": "Copy", "PhantomData": "std::marker::PhantomData",
       "HeaderValue": "hyper::header::HeaderValue", "Infallible": "std::convert::Infallible", "TypeId": "std::any::TypeId", "c_void": "std::ffi::c_void", "c_int": "std::ffi::c_int", "c_char": "std::ffi::c_char"}

class Doc:
    def __init__(s, path):
        s.d = json.load(open(path)); s.ix = s.d["index"]; s.path = {}; s.items = []
        s.walk(s.d["root"], [])
    def it(s, i): return s.ix.get(str(i))
    def walk(s, i, path):
        it = s.it(i)
        if it is None: return
        k = next(iter(it["inner"])); v = it["inner"][k]
        if k == "module":
            for c in v["items"]: s.walk(c, path + [it["name"]])
        elif k == "use":
            t = s.it(v["id"])
            if t is None or t["crate_id"] != 0:
                s.items.append(("use", "::".join(path + [v["name"]]), None)); return
            if v["is_glob"]:
                for c in next(iter(t["inner"].values()))["items"]: s.walk(c, path)
            else: s.item(v["id"], path + [v["name"]])
        else: s.item(i, path + [it["name"]])
    def item(s, i, path):
        it = s.it(i); k = next(iter(it["inner"]))
        if None in path: return
        p = "::".join(path)
        if i not in s.path: s.path[i] = p
        s.items.append((k, p, i))
    # --- printing
    def ext(s, path, i):
        if i in s.path: return s.path[i]
        n = path.split("::")[-1]
        if s.it(i) is None or s.it(i)["crate_id"] != 0:
            q = s.d["paths"].get(str(i))
            if q: n = q["path"][-1]; 
            if q and n == "Result" and q["path"][:2] == ["core", "fmt"]: return "std::fmt::Result"
            if q and n == "Result" and q["path"][0] == "std" and q["path"][1] == "io": return "std::io::Result"
            if q and n == "Error" and q["path"][1] == "io": return "std::io::Error"
            if q and n == "Error" and q["path"][0] == "http": raise KeyError("http::Error")
            return EXT[n]
        # a local item that is not reachable: an alias?
        t = s.it(i)
        raise KeyError("private " + path)
    def args(s, a, me):
        if not a: return ""
        if "parenthesized" in a:
            a = a["parenthesized"]
            return "(%s)%s" % (", ".join(s.ty(x, me) for x in a["inputs"]), " -> " + s.ty(a["output"], me) if a["output"] else "")
        a = a["angle_bracketed"]; l = []
        for x in a["args"]:
            l.append(x["lifetime"] if "lifetime" in x else s.ty(x["type"], me) if "type" in x else "_")
        for c in a["constraints"]:
            b = c["binding"]
            if "equality" in b: l.append("%s = %s" % (c["name"], s.ty(b["equality"]["type"], me)))
            else: l.append("%s: %s" % (c["name"], s.bounds(b["constraint"], me)))
        return "<%s>" % ", ".join(l) if l else ""
    def rp(s, p, me):
        i = p["id"]; t = s.it(i)
        if t is not None and t["crate_id"] == 0 and "type_alias" in t["inner"]:
            al = t["inner"]["type_alias"]; ps = [g["name"] for g in al["generics"]["params"]]
            aa = [s.ty(x["type"], me) for x in p["args"]["angle_bracketed"]["args"]] if p["args"] else []
            df = [g["kind"]["type"]["default"] for g in al["generics"]["params"]]
            while len(aa) < len(ps): aa.append(s.ty(df[len(aa)], me))
            r = s.ty(al["type"], me)
            for q, v in zip(ps, aa): r = re.sub(r"\b%s\b" % q, v, r)
            return r
        a = s.args(p["args"], me)
        if s.ext(p["path"], i).endswith("HttpService") and not a: a = "<hyper::body::Incoming>"
        return s.ext(p["path"], i) + a
    def ty(s, t, me):
        (k, v), = t.items() if len(t) == 1 else [next(iter(t.items()))]
        if k == "generic": return me if v == "Self" and me else v
        if k == "primitive": return "()" if v == "unit" else v
        if k == "resolved_path": return s.rp(v, me)
        if k == "borrowed_ref": return "&" + (v["lifetime"] + " " if v["lifetime"] else "") + ("mut " if v["is_mutable"] else "") + s.paren(v["type"], me)
        if k == "tuple": return "(" + "".join(s.ty(x, me) + ", " for x in v).rstrip() + ")"
        if k == "slice": return "[" + s.ty(v, me) + "]"
        if k == "array": return "[%s; %s]" % (s.ty(v["type"], me), v["len"])
        if k == "impl_trait": return "impl " + s.bounds(v, me)
        if k == "dyn_trait": return "dyn " + " + ".join([s.rp(x["trait"], me) for x in v["traits"]] + ([v["lifetime"]] if v["lifetime"] else []))
        if k == "qualified_path":
            return "<%s as %s>::%s" % (s.ty(v["self_type"], me), s.rp(v["trait"], me), v["name"])
        if k == "raw_pointer": return "*" + ("mut " if v["is_mutable"] else "const ") + s.paren(v["type"], me)
        if k == "function_pointer": return ("extern \"C\" " if v["header"]["abi"] != "Rust" else "") + "fn(%s)%s" % (", ".join(s.ty(x[1], me) for x in v["sig"]["inputs"]), " -> " + s.ty(v["sig"]["output"], me) if v["sig"]["output"] else "")
        raise KeyError(k)
    def paren(s, t, me):
        r = s.ty(t, me)
        return "(%s)" % r if r.startswith(("dyn ", "impl ")) and "+" in r else r
    def bounds(s, bs, me):
        l = []
        for b in bs:
            if "outlives" in b: l.append(b["outlives"])
            elif "trait_bound" in b:
                b = b["trait_bound"]
                l.append(("?" if b["modifier"] == "maybe" else "") + s.hr(b["generic_params"]) + s.rp(b["trait"], me))
        return " + ".join(l)
    def hr(s, g): return "for<%s> " % ", ".join(x["name"] for x in g) if g else ""
    def gen(s, gens, me):
        ps, wh = [], []
        for g in gens:
            for p in g["params"]:
                if "lifetime" in p["kind"]: ps.append(p["name"]); continue
                if "type" in p["kind"]:
                    if p["kind"]["type"]["is_synthetic"]: continue
                    ps.append(p["name"])
                    b = s.bounds(p["kind"]["type"]["bounds"], me)
                    if b: wh.append("%s: %s" % (p["name"], b))
                else: ps.append("const %s: %s" % (p["name"], s.ty(p["kind"]["const"]["type"], me)))
            for w in g["where_predicates"]:
                if "bound_predicate" in w:
                    w = w["bound_predicate"]
                    wh.append("%s%s: %s" % (s.hr(w["generic_params"]), s.ty(w["type"], me), s.bounds(w["bounds"], me)))
                elif "lifetime_predicate" in w: wh.append("%s: %s" % (w["lifetime_predicate"]["lifetime"], " + ".join(w["lifetime_predicate"]["outlives"])))
        ps.sort(key=lambda x: not x.startswith("'"))
        return ("<%s>" % ", ".join(ps) if ps else ""), (" where " + ", ".join(wh) if wh else "")

    def callers(s):
        """{key: rust text of the body}"""
        out = {}
        for k, p, i in s.items:
            if k == "use": out["use " + p] = "pub use %s as _x;" % p; continue
            it = s.it(i)
            if k == "function":
                try: out["fn " + p] = s.fn(p, it["inner"]["function"], [], None)
                except KeyError as e: print("skip fn", p, e)
            elif k == "type_alias": out["type " + p] = "pub use %s as _x;" % p
            elif k == "trait": out["trait " + p] = "pub use %s as _x;" % p
            elif k == "constant": out["const " + p] = "pub use %s as _x;" % p
            elif k in ("struct", "enum"):
                if "::ffi::" in p:
                    out[k + " " + p] = "pub use %s as _x;" % p
                    continue
                out[k + " " + p] = "pub use %s as _x;" % p
                v = it["inner"][k]
                for im in v["impls"]:
                    im = s.it(im)["inner"]["impl"]
                    if im["blanket_impl"] or im["is_negative"]: continue
                    try: me = s.ty(im["for"], None)
                    except KeyError as e: print("skip impl", p, e); continue
                    if im["trait"] is None:
                        for m in im["items"]:
                            mm = s.it(m)
                            if "function" not in mm["inner"]: print("skip", p, mm["name"]); continue
                            try: out["fn %s::%s" % (p, mm["name"])] = s.fn("<%s>::%s" % (me, mm["name"]), mm["inner"]["function"], [im["generics"]], me)
                            except KeyError as e: print("skip fn", p, mm["name"], e)
                    else:
                        tn = im["trait"]["path"].split("::")[-1]
                        if tn in ("Freeze", "UnwindSafe", "RefUnwindSafe", "UnsafeUnpin", "StructuralPartialEq"): continue
                        if im["is_synthetic"] and p.endswith("UpgradeableConnection"): continue
                        try:
                            tr = s.rp(im["trait"], me); g, w = s.gen([im["generics"]], me)
                            assoc = [(s.it(x)["name"], s.ty(s.it(x)["inner"]["assoc_type"]["type"], me)) for x in im["items"] if "assoc_type" in s.it(x)["inner"]]
                        except KeyError as e: print("skip impl", p, tn, e); continue
                        a = ", ".join("%s = %s" % x for x in assoc if "impl " not in x[1])
                        t2 = tr
                        if a: t2 = tr[:-1] + ", " + a + ">" if tr.endswith(">") else tr + "<" + a + ">"
                        key = "impl %s for %s" % (tr, p) if not im["is_synthetic"] else "auto %s for %s" % (tr, p)
                        out[key] = "pub fn w%s()%s { fn n<%sX: ?Sized + %s>() {} n::<%s>() }" % (g, w, "".join(x + ", " for x in re.findall(r"'\w+", g)), t2, me)
        return out
    def fn(s, path, f, outer, me):
        sig = f["sig"]; g, w = s.gen(outer + [f["generics"]], me)
        ins = ["a%d: %s" % (n, s.ty(x[1], me)) for n, x in enumerate(sig["inputs"])]
        o = s.ty(sig["output"], me) if sig["output"] else "()"
        if f["header"]["is_async"]: o = "impl std::future::Future<Output = %s>%s" % (o, " + '_" if any("&" in x for x in ins) else "")
        if "&" in o and "&'" not in o and ins and ins[0].startswith("a0: &") and "<'" in ins[0]:
            ins[0] = ins[0].replace("&", "&'x ", 1); o = o.replace("&", "&'x "); g = "<'x" + (", " + g[1:] if g else ">")
        if o.startswith("impl ") and any("&" in x for x in ins) and "+ '" not in o: pass
        c = "%s(%s)" % (path, ", ".join("a%d" % n for n in range(len(ins))))
        if f["header"]["is_unsafe"]: c = "unsafe { %s }" % c
        if f["header"]["abi"] not in ("Rust",):
            return "pub const W: extern \"C\" fn(%s)%s = %s;" % (", ".join(x.split(": ", 1)[1] for x in ins), " -> " + o if sig["output"] else "", path)
        cn = "const " if f["header"]["is_const"] else ""
        return "pub %sfn w%s(%s) -> %s%s { %s }" % (cn, g, ", ".join(ins), o, w, c)

def doc(fs):
    env = dict(os.environ, CARGO_TARGET_DIR="/tmp/rd" + ("f" if "ffi" in fs else ""))
    if "ffi" in fs: env.update(RUSTFLAGS="--cfg hyper_unstable_ffi", RUSTDOCFLAGS="--cfg hyper_unstable_ffi")
    subprocess.run(["cargo", "+nightly", "rustdoc", "-q", "--offline", "--lib", "--features", ",".join(fs), "--", "-Z", "unstable-options", "--output-format", "json"], check=True, stderr=subprocess.DEVNULL, env=env, cwd=REPO)
    return Doc(env["CARGO_TARGET_DIR"] + "/doc/hyper.json")

if __name__ == "__main__":
    combos = [tuple(f for n, f in enumerate(F) if b >> n & 1) for b in range(16)]
    have, text = {}, {}
    for c in combos:
        for k, v in doc(c).callers().items():
            have.setdefault(k, set()).add(c)
            text.setdefault(k, {}).setdefault(v, set()).add(c)
    L = ["// Written by tools/gen_witness.py: one caller per public function, method and impl.", "#![allow(unused, clippy::all)]", ""]
    n = 0
    for k, v in doc(["client", "http1", "http2", "ffi"]).callers().items():
        if "hyper::ffi::" in k:
            have[k] = {("ffi",)}; text[k] = {v: {("ffi",)}}
    h = open(os.path.join(REPO, "capi/include/hyper.h")).read()
    fns = set(re.findall(r"^[a-z][\w \*]*?\b(hyper_\w+)\(", h, re.M))
    for f in fns: assert "fn hyper::ffi::" + f in have, f
    assert len(fns) == sum(1 for k in have if k.startswith("fn hyper::ffi::hyper_")), len(fns)
    for name, val in re.findall(r"#define (HYPER_\w+) (\d+)", h):
        have["value " + name] = {("ffi",)}; text["value " + name] = {"const _: () = assert!(hyper::ffi::%s as u64 == %s);" % (name, val): {("ffi",)}}
    for body, name in re.findall(r"typedef enum \w+ \{(.*?)\} (\w+);", h, re.S):
        body = re.sub(r"/\*.*?\*/", "", body, flags=re.S)
        vs = [x.strip() for x in body.split(",") if x.strip()]
        have["enum values " + name] = {("ffi",)}
        text["enum values " + name] = {" ".join("const _: () = assert!(hyper::ffi::%s::%s as i64 == %d);" % (name, v, n) for n, v in enumerate(vs)): {("ffi",)}}
    for k in sorted(have):
        for v, cs in sorted(text[k].items()):
            mins = [c for c in cs if not any(set(d) < set(c) for d in cs)]
            # monotone?
            up = cs if ("ffi",) in cs else [c for c in combos if any(set(m) <= set(c) for m in mins)]
            up = set(up)
            if up != cs: print("NOT MONOTONE", k, len(cs), len(up))
            cond = "any(%s)" % ", ".join("all(%s)" % ", ".join('feature = "%s"' % f for f in m) for m in sorted(mins)) if () not in mins else ""
            if set(up) != cs: cond = "any(%s)" % ", ".join("all(%s)" % ", ".join(('feature = "%s"' if f in m else 'not(feature = "%s")') % f for f in F) for m in sorted(cs))
            n += 1
            L.append("// API: %s" % k)
            L.append(("#[cfg(%s)] " % cond if cond else "") + "pub mod w%d { %s }" % (n, v))
    open(OUT, "w").write("\n".join(L) + "\n")
    print(n, "items")
