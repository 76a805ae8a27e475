#!/usr/bin/env python3
"""Builds the real canisters of /repo's working tree to WebAssembly, offline.

A copy ("overlay") of the workspace is kept under /verif/.build/ws: every file is
copied by content (and only rewritten when its content differs, so that cargo's
incremental state stays valid).  The only edits are to manifests: the one git
dependency that cannot be fetched here (ic-canisters-http-types: the HTTP request
and response types and a response builder) is replaced by sim/stub-http, and a build
profile "sim" (release semantics, cheaper optimisation) is added.  No source file of
the workspace is changed.

Output: /verif/.build/out/<content-hash>/{cycles-ledger,depositor,fake-cmc}.wasm,
and that directory's path on stdout.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
WS = os.path.join(BUILD, "ws")
SKIP_TOP = {"target", ".git", ".github", "node_modules"}
DEP = "ic-canisters-http-types"
TARGET = "wasm32-unknown-unknown"
PROFILE = """

[profile.sim]
inherits = "release"
lto = false
opt-level = 1
codegen-units = 16
debug = false
strip = "debuginfo"
[profile.sim.build-override]
opt-level = 0
codegen-units = 16
"""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def files(root):
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        ds[:] = sorted(x for x in ds if not (rel == "." and x in SKIP_TOP) and x not in ("target", ".git"))
        for f in sorted(fs):
            yield f if rel == "." else os.path.join(rel, f)


def transform(rel, data):
    if rel == "Cargo.lock":
        t = data.decode()
        t = re.sub(r'(\[\[package\]\]\nname = "%s"\nversion = "[^"]*"\n)source = "git\+[^"]*"\n' % DEP, r"\1", t)
        return t.encode()
    if rel == "Cargo.toml":
        return data + PROFILE.encode()
    if rel.endswith("/Cargo.toml"):
        t = data.decode()
        up = "/".join([".."] * rel.count("/"))
        t = re.sub(r"(?m)^%s\s*=\s*\{[^}\n]*\}" % DEP, '%s = { path = "%s/stub-http" }' % (DEP, up), t)
        return t.encode()
    return data


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return True


def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    want = {}
    for rel in files(REPO):
        p = os.path.join(REPO, rel)
        if os.path.islink(p) or not os.path.isfile(p):
            continue
        top = rel.split("/")[0]
        # sources only: manifests, toolchain pin and the crates
        if "/" not in rel and rel not in ("Cargo.toml", "Cargo.lock", "rust-toolchain.toml"):
            continue
        if top in ("assets", "scripts"):
            continue
        with open(p, "rb") as f:
            want[rel] = transform(rel, f.read())
    stub = os.path.join(VERIF, "sim", "stub-http")
    for rel in files(stub):
        with open(os.path.join(stub, rel), "rb") as f:
            want["stub-http/" + rel] = f.read()
    h = hashlib.sha256()
    for rel in sorted(want):
        h.update(rel.encode() + b"\0" + hashlib.sha256(want[rel]).digest())
    key = h.hexdigest()[:24]
    out = os.path.join(BUILD, "out", key)
    if os.path.isfile(os.path.join(out, "ok")):
        print(out)
        return 0
    for rel in list(files(WS)) if os.path.isdir(WS) else []:
        if rel not in want:
            os.unlink(os.path.join(WS, rel))
    for rel, data in want.items():
        put(os.path.join(WS, rel), data)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            del env[k]
    env.update(CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true",
               RUSTFLAGS="-C link-arg=--export-table", CARGO_TERM_COLOR="never")
    cmd = ["cargo", "build", "--offline", "--profile", "sim", "--target", TARGET,
           "-p", "cycles-ledger", "-p", "depositor", "-p", "fake-cmc", "--bins"]
    r = subprocess.run(cmd, cwd=WS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("build failed")
        return 3
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for b in ("cycles-ledger", "depositor", "fake-cmc"):
        shutil.copyfile(os.path.join(BUILD, "target", TARGET, "sim", b + ".wasm"), os.path.join(tmp, b + ".wasm"))
    open(os.path.join(tmp, "ok"), "w").write("%.1f\n" % (time.time() - t0))
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    # keep the five newest outputs
    o = os.path.join(BUILD, "out")
    ds = sorted((d for d in os.listdir(o)), key=lambda d: os.path.getmtime(os.path.join(o, d)))
    for d in ds[:-5]:
        shutil.rmtree(os.path.join(o, d), ignore_errors=True)
    log("built in %.1f s" % (time.time() - t0))
    print(out)
    return 0


if __name__ == "__main__":
    sys.exit(main())
