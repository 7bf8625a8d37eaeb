"""Builds the MIR dumper and the dependencies of auto_enums, and dumps the
type-checked program of /repo's current working tree in a feature
configuration."""
import os, subprocess, json, sys, hashlib, fcntl, tomllib, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TOOL = "nightly"

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        sys.stderr.write(p.stdout[-3000:] + p.stderr[-6000:])
        raise RuntimeError("command failed: %s" % " ".join(cmd))
    return p.stdout

def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "RUSTC"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e

def manifest():
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)

def all_features():
    return sorted(k for k in manifest().get("features", {}) if k != "default")

def feature_closure(feats):
    """cargo's feature resolution within the crate."""
    t = manifest().get("features", {})
    out, todo = set(), list(feats)
    while todo:
        f = todo.pop()
        if f in out or f not in t:
            continue
        out.add(f)
        todo += [x for x in t[f] if "/" not in x and ":" not in x]
    return sorted(out)

def ensure_driver():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = _env()
        drv = os.path.join(BUILD, "driver", "debug", "mirdump")
        src = open(os.path.join(VERIF, "driver/src/main.rs"), "rb").read()
        stamp = os.path.join(BUILD, "driver.stamp")
        h = hashlib.sha256(src).hexdigest()
        if not (os.path.exists(drv) and os.path.exists(stamp) and open(stamp).read() == h):
            e = dict(env); e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
            sh(["cargo", "+" + TOOL, "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver/Cargo.toml")], env=e)
            open(stamp, "w").write(h)
        # dependencies, as declared by /repo
        deps = manifest()["dependencies"]
        dj = json.dumps(deps, sort_keys=True)
        ddir = os.path.join(BUILD, "deps")
        ext = os.path.join(BUILD, "externs.json")
        dh = hashlib.sha256(dj.encode()).hexdigest()
        ok = False
        if os.path.exists(ext):
            x = json.load(open(ext))
            ok = x.get("h") == dh and all(os.path.exists(p) for p in x["externs"].values())
        if not ok:
            os.makedirs(os.path.join(ddir, "src"), exist_ok=True)
            open(os.path.join(ddir, "src/lib.rs"), "w").write("")
            with open(os.path.join(ddir, "Cargo.toml"), "w") as f:
                f.write('[package]\nname="depstub"\nversion="0.0.0"\nedition="2021"\n[workspace]\n[dependencies]\n')
                for k, v in deps.items():
                    if isinstance(v, str):
                        f.write('%s = "%s"\n' % (json.dumps(k), v))
                    else:
                        parts = []
                        for a, b in v.items():
                            parts.append("%s = %s" % (a, json.dumps(b)))
                        f.write('%s = { %s }\n' % (json.dumps(k), ", ".join(parts)))
            e = dict(env); e["CARGO_TARGET_DIR"] = os.path.join(ddir, "target")
            out = sh(["cargo", "+" + TOOL, "build", "--offline", "--message-format=json", "--manifest-path", os.path.join(ddir, "Cargo.toml")], env=e)
            names = {k.replace("-", "_") for k in deps}
            externs, dirs = {}, set()
            for line in out.splitlines():
                try: m = json.loads(line)
                except ValueError: continue
                if m.get("reason") == "compiler-artifact":
                    n = m["target"]["name"].replace("-", "_")
                    dirs |= {os.path.dirname(p) for p in m["filenames"]}
                    if n in names and "lib" in m["target"]["kind"]:
                        r = [p for p in m["filenames"] if p.endswith(".rmeta")] or [p for p in m["filenames"] if p.endswith(".rlib")]
                        externs[n] = r[0]
            json.dump({"h": dh, "externs": externs, "dirs": sorted(dirs)}, open(ext, "w"))
    x = json.load(open(ext))
    return drv, x["externs"], x["dirs"]

_sysroot = None
def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = sh(["rustc", "+" + TOOL, "--print", "sysroot"], env=_env()).strip()
    return _sysroot

class CompileError(Exception):
    pass

def dump(feats, out, debug=False, aligned=True):
    """Dump /repo's crate with the given features; returns parsed JSON."""
    drv, externs, depdirs = ensure_driver()
    lib = manifest().get("lib", {}).get("path", "src/lib.rs")
    edition = manifest()["package"].get("edition", "2021")
    cmd = [drv, out, "--crate-name", "auto_enums", "--edition", edition, os.path.join(REPO, lib),
           "--crate-type", "proc-macro", "--sysroot", sysroot(), "--cap-lints", "allow",
           "-C", "debug-assertions=" + ("yes" if debug else "no"), "-C", "overflow-checks=" + ("on" if debug else "off"), "--emit", "metadata",
           "--extern", "proc_macro"]
    for x in depdirs:
        cmd += ["-L", "dependency=" + x]
    for f in feature_closure(feats):
        cmd += ["--cfg", 'feature="%s"' % f]
    for n, p in externs.items():
        cmd += ["--extern", "%s=%s" % (n, p)]
    env = _env()
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env["CARGO_MANIFEST_DIR"] = REPO
    env["CARGO_PKG_NAME"] = "auto_enums"; env["CARGO_PKG_VERSION"] = "0"
    if os.path.exists(out): os.remove(out)
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=os.path.dirname(out))
    if p.returncode or not os.path.exists(out):
        raise CompileError(p.stdout + p.stderr)
    d = json.load(open(out))
    d["features"] = feature_closure(feats)
    if aligned:
        import shape
        d, d["renamed"] = shape.align(d)
    return d
