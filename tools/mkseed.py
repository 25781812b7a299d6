#!/usr/bin/env python3
"""tools/mkseed.py NAME... : build seeded/NAME from tools/seeds/NAME.py (META, EDITS, DEMO[, FFI]) and confirm it in a scratch copy.
Confirms: patch applies, code builds, demo passes unpatched and fails patched, existing tests pass."""
import sys, os, json, subprocess, shutil, runpy, re, fcntl
V = "/verif"; T = V + "/tools"
def sh(cmd, cwd, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env={**os.environ, **(env or {})})
    return p.returncode, p.stdout.decode(errors="replace")
def main(names):
    quick = "-q" in names
    names = [n for n in names if not n.startswith("-")]
    slot = os.environ.get("SLOT", "0"); sw = "/tmp/sw" + slot
    if not os.path.exists(sw): subprocess.check_call(["cp", "-a", "/repo", sw])
    for n in names:
        s = runpy.run_path("%s/seeds/%s.py" % (T, n)); d = "%s/seeded/%s" % (V, n)
        subprocess.check_call("git fetch -q /repo && git checkout -q -f FETCH_HEAD && git clean -fdq", cwd=sw, shell=True)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        sf = open(T + "/demo/demo.sh").read()
        if s.get("FFI"):
            sf = sf.replace('features = ["full"]', 'features = ["client","http1","http2","ffi"]').replace("\ncargo build", '\nRUSTFLAGS="--cfg hyper_unstable_ffi" cargo build')
            src = s["DEMO"]
        else: src = open(T + "/demo/prelude.rs").read() + s["DEMO"]
        if "SH" in s: sf = s["SH"]
        open(d + "/demo.sh", "w").write(sf); os.chmod(d + "/demo.sh", 0o755)
        if src.strip(): open(d + "/demo.rs", "w").write(src)
        json.dump(s["META"], open(d + "/meta.json", "w"), indent=1)
        rc0, out0 = sh("timeout 280 bash %s/demo.sh" % d, sw)
        for f, old, new in s["EDITS"]:
            p = sw + "/" + f; t = open(p).read()
            assert t.count(old) == 1, (n, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=sw).decode(); open(d + "/patch.diff", "w").write(diff)
        rc1, out1 = sh("timeout 280 bash %s/demo.sh" % d, sw)
        tests = "skipped"
        if not quick and rc0 == 0 and rc1 != 0:
            e = {"CARGO_NET_OFFLINE": "true", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only", "CARGO_INCREMENTAL": "1", "RUSTUP_TOOLCHAIN": "stable"}
            r, o = sh("cargo test --features full --offline --no-fail-fast -- --test-threads 8", sw, env=e)
            fails = re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
            r2, o2 = sh("RUSTFLAGS='--cfg hyper_unstable_ffi' CARGO_TARGET_DIR=%s/target/ffi cargo test --features client,http1,http2,ffi --lib --offline --no-fail-fast -- --test-threads 8" % sw, sw, env=e)
            fails += re.findall(r"^test (.*) \.\.\. FAILED", o2, re.M)
            base = {x.split("::", 0)[0] for x in []}
            tests = "ok" if r == 0 and r2 == 0 else "FAILED %s" % (fails or o[-1500:])
        print("%-34s base rc=%s patched rc=%s tests=%s  %s" % (n, rc0, rc1, tests, "" if rc0 == 0 and rc1 not in (0,) else "\n--base--\n" + out0[-1500:] + "\n--patched--\n" + out1[-1500:]))
        if rc1 != 0 and rc0 == 0: print("     " + "\n     ".join(out1.strip().splitlines()[-3:]))
        subprocess.check_call("git checkout -q -f .", cwd=sw, shell=True)
main(sys.argv[1:])
