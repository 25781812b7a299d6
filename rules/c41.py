"""Every combination of public features type-checks, and so does a caller of everything it promises."""
from rt import *
import build, threading, shutil, json as _json, re as _re
LEVEL = "other"
import os
W = os.path.join(build.VERIF, "witness")
F = ["client", "server", "http1", "http2"]
BASE = [[f for n, f in enumerate(F) if b >> n & 1] for b in range(16)]
PROTO = [c for c in BASE if set(c) & {"client", "server"} and set(c) & {"http1", "http2"}]
FFI = [c for c in BASE if {"client", "http1"} <= set(c)]
# (name, RUSTFLAGS, extra features, combinations)
FLAVOURS = [("", "", [], BASE),
            ("tracing", "--cfg hyper_unstable_tracing", ["tracing"], BASE),
            ("ffi", "--cfg hyper_unstable_ffi", ["ffi"], FFI),
            ("ffi+tracing", "--cfg hyper_unstable_ffi --cfg hyper_unstable_tracing", ["ffi", "tracing"], FFI[-1:])]
TOML = """[package]
name = "hv-witness"
version = "0.0.0"
edition = "2021"
[lib]
path = "%s/src/lib.rs"
[dependencies]
hyper = { path = "%s" }
[features]
client = ["hyper/client"]
server = ["hyper/server"]
http1 = ["hyper/http1"]
http2 = ["hyper/http2"]
ffi = ["hyper/ffi"]
tracing = ["hyper/tracing"]
[workspace]
"""

def items():
    """[(features it is promised under or None, name)] of the generated witnesses, by line"""
    out = {}; name = None
    for n, l in enumerate(open(os.path.join(W, "src", "api.rs")), 1):
        if l.startswith("// API: "): name = l[8:].strip()
        elif "pub mod w" in l:
            m = _re.match(r"#\[cfg\(any\((.*?)\)\)\] pub mod", l)
            conds = [set(_re.findall(r'feature = "(\w+)"', x)) for x in _re.findall(r"all\(([^()]*)\)", m.group(1))] if m else [set()]
            out[n] = (conds, name)
    return out

def manual_fn(line):
    best = "?"; mod = ""
    for n, l in enumerate(open(os.path.join(W, "src", "manual.rs")), 1):
        if n > line: break
        m = _re.match(r"pub mod (\w+)", l)
        if m: mod = m.group(1) + "::"
        if l.startswith("}"): mod = ""
        m = _re.match(r"\s*pub (?:fn|struct) (\w+)|^(impl.*?) \{", l)
        if m: best = mod + (m.group(1) or m.group(2))
    return best

def run(ctx):
    ctx.rule("for every one of the 16 combinations of the client, server, http1 and http2 features, each with and without the tracing feature, and for every documented combination with the C API (client and http1, with and without server and http2), the compiler's type checker accepts the crate")
    ctx.rule("in each combination it also accepts the witness crate: one generated caller per public function and method with the argument types, bounds and result type it had, one assertion per public trait implementation and unconditional Send, Sync and Unpin of a public type, and hand-written callers for user-implemented traits (no new required item), sealed or unnameable signatures, public struct fields, and the Send, Sync and Unpin the connection, body, upgrade, sender and builder types and the returned futures promise, stated for every transport, body, service and executor type that satisfies the bounds")
    ctx.rule("the C functions, constants and enum values of the shipped header exist in the ffi module with those argument types and values")
    build.locked(); build.lockfile()
    its = items()
    ctx.fns |= {n for _, n in its.values()}
    res = []
    lock = threading.Lock()
    def one(fl):
        tag, flags, extra, combos = fl
        d = os.path.join(build.BUILD, "wit" + (tag.replace("+", "_") or "0"))
        os.makedirs(d, exist_ok=True)
        t = TOML % (W, build.REPO)
        p = os.path.join(d, "Cargo.toml")
        if not os.path.exists(p) or open(p).read() != t: open(p, "w").write(t)
        if not os.path.exists(os.path.join(d, "Cargo.lock")): shutil.copy(os.path.join(build.REPO, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
        env = build.clean_env(); env["CARGO_TARGET_DIR"] = os.path.join(d, "target")
        if flags: env["RUSTFLAGS"] = flags
        for c in combos:
            fs = c + extra
            # the fingerprint is not trusted: both crates are checked again
            for g in ("hyper-", "hv-witness-", "hv_witness-"):
                fp = os.path.join(d, "target", "debug", ".fingerprint")
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.startswith(g): shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
            rc, o = build.sh(["cargo", "check", "-q", "--offline", "--message-format=json", "--features", ",".join(fs)], env=env, cwd=d)
            with lock: res.append((fs, rc, o))
    th = [threading.Thread(target=one, args=(f,)) for f in FLAVOURS]
    for t in th: t.start()
    for t in th: t.join()
    for fs, rc, o in sorted(res, key=lambda r: (len(r[0]), r[0])):
        name = ",".join(fs) or "no features"
        errs = []
        for l in o.splitlines():
            if not l.startswith("{"): continue
            m = _json.loads(l)
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error": continue
            sp = [s for s in m["message"]["spans"] if s["is_primary"]] or m["message"]["spans"]
            if not sp: continue
            s = sp[0]
            while s.get("expansion") and not s["file_name"].startswith(("src/", build.REPO, W)): s = s["expansion"]["span"]
            errs.append((m["target"]["name"], s["file_name"], s["line_start"], m["message"]["message"], m["message"].get("rendered", "")[:600]))
        ctx.ok("combinations type-checked")
        if rc == 0:
            have = set(fs)
            ctx.ok("callers type-checked in a combination", sum(1 for cs, _ in its.values() if any(c <= have for c in cs)))
            ctx.ok("thread-safety and hand-written witnesses type-checked", len(_re.findall(r"pub fn ", open(os.path.join(W, "src", "manual.rs")).read())))
            continue
        if not errs:
            ctx.bad("build:" + name, "with features [%s] the crate does not compile: %s" % (name, o[-1500:]))
        seen = set()
        for tgt, file, line, msg, r in errs:
            if tgt == "hyper" or not file.startswith(W):
                f2 = file[len(build.REPO) + 1:] if file.startswith(build.REPO) else file
                k = "compile:%s:%s:%s" % (name, f2, msg[:80])
                t = "with features [%s] hyper does not compile: %s:%d: %s\n%s" % (name, f2, line, msg, r)
            else:
                it = its[line][1] if file.endswith("api.rs") and line in its else "the caller `%s` of witness/src/manual.rs" % manual_fn(line)
                k = "api:%s:%s" % (name, it)
                t = "with features [%s] the documented API changed: %s: %s\n%s" % (name, it, msg, r)
            if k not in seen:
                seen.add(k)
                if len(seen) <= 6: ctx.bad(k, t)
    ctx.floor("combinations type-checked", 37)
    if not ctx.viol:
        ctx.floor("callers type-checked in a combination", 4000)
        ctx.floor("thread-safety and hand-written witnesses type-checked", 900)
