"""Builds the MIR driver and dumps the resolved program of /repo's current working tree.

The dump is keyed by a hash of everything it is computed from, so a stale dump is never used."""
import os, sys, subprocess, hashlib, fcntl, shutil, json, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HV_REPO", "/repo")
BUILD = os.environ.get("HV_BUILD", os.path.join(VERIF, ".build"))
DRIVER = os.path.join(VERIF, "driver")

CONFIGS = {
    # the configuration the test suite is built with (every public feature)
    "a": dict(features="full", rustflags=""),
    # the C API
    "b": dict(features="full,ffi", rustflags="--cfg hyper_unstable_ffi"),
    # single-role / single-version builds
    "c": dict(features="client,http1", rustflags=""),
    "s": dict(features="server,http1", rustflags=""),
}

def _files(root):
    out = []
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files): out.append(os.path.join(base, f))
    return out

def digest(cfg):
    h = hashlib.sha256()
    fs = _files(os.path.join(REPO, "src"))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p): fs.append(p)
    fs += _files(os.path.join(DRIVER, "src")) + [os.path.join(DRIVER, "Cargo.toml")]
    for f in fs:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
        h.update(b"\0")
    h.update(json.dumps(CONFIGS[cfg], sort_keys=True).encode())
    return h.hexdigest()[:24]

def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

class BuildError(Exception):
    pass

_lock = None
def locked():
    global _lock
    if _lock is None:
        os.makedirs(BUILD, exist_ok=True)
        _lock = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(_lock, fcntl.LOCK_EX)

def clean_env():
    env = dict(os.environ)
    for k in list(env):
        if k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET_DIR", "RUSTDOCFLAGS"): del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env

def driver():
    env = clean_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "drv")
    rc, out = sh(["cargo", "+nightly", "build", "--offline", "-q"], env=env, cwd=DRIVER)
    if rc: raise BuildError("driver does not build:\n" + out[-3000:])
    return os.path.join(BUILD, "drv", "debug", "hvdriver")

def lockfile():
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))

def dump(cfg="a"):
    """path of the dump for the current tree (building it if needed)"""
    global _lock
    had = _lock is not None
    locked()
    try: return _dump(cfg)
    finally:
        if not had: _lock.close(); _lock = None

def _dump(cfg):
    lockfile()
    out = os.path.join(BUILD, "%s-%s.json" % (cfg, digest(cfg)))
    if os.path.exists(out): return out
    drv = driver()
    for old in glob.glob(os.path.join(BUILD, cfg + "-*.json")): os.unlink(old)
    rc, root = sh(["rustc", "+nightly", "--print", "sysroot"])
    env = clean_env()
    tgt = os.path.join(BUILD, "t" + cfg)
    env.update(LD_LIBRARY_PATH=root.strip() + "/lib", CARGO_TARGET_DIR=tgt, HV_OUT=out + ".tmp", RUSTC_WORKSPACE_WRAPPER=drv)
    if CONFIGS[cfg]["rustflags"]: env["RUSTFLAGS"] = CONFIGS[cfg]["rustflags"]
    # cargo's freshness cache must never skip the wrapper
    for p in glob.glob(tgt + "/debug/build/hyper") + glob.glob(tgt + "/debug/.fingerprint/hyper-*") + glob.glob(tgt + "/debug/incremental"):
        shutil.rmtree(p, ignore_errors=True)
    rc, o = sh(["cargo", "+nightly", "check", "-q", "--lib", "--offline", "--manifest-path", REPO + "/Cargo.toml", "--features", CONFIGS[cfg]["features"]], env=env)
    if rc: raise BuildError("the tree does not compile (%s):\n%s" % (CONFIGS[cfg]["features"], o[-3000:]))
    if not os.path.exists(out + ".tmp"): raise BuildError("no dump was written")
    os.rename(out + ".tmp", out)
    return out

if __name__ == "__main__":
    for c in (sys.argv[1:] or ["a", "b"]):
        print(c, dump(c))
