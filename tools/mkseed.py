#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec (edits on /repo's HEAD, a demo program, and what it needs).
The spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (Rust main.rs)."""
import sys, os, json, subprocess, tempfile, shutil, runpy
s = runpy.run_path(sys.argv[1])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = f"{root}/seeded/{s['ID']}"
os.makedirs(out, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed")
try:
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, check=True)
    for f, a, b in s["EDITS"]:
        p = f"{t}/{f}"; x = open(p).read()
        assert x.count(a) == 1, (f, a, x.count(a))
        open(p, "w").write(x.replace(a, b))
    d = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout
    assert d
    open(f"{out}/patch.diff", "w").write(d)
finally:
    shutil.rmtree(t)
open(f"{out}/demo.rs", "w").write(s["DEMO"].lstrip())
open(f"{out}/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository; exit 0: behaves, non-zero: broken
d=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/" 2>/dev/null
cat >"$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dist-saver = { path = "$repo" }
ark-ff = { version = "0.4.1", default-features = false }
ark-ec = { version = "0.4.1", default-features = false }
ark-std = { version = "0.4.0", default-features = false }
ark-serialize = { version = "0.4.1", default-features = false }
ark-relations = { version = "0.4.0", default-features = false }
ark-groth16 = { version = "0.4.0", default-features = false }
ark-bls12-381 = { version = "0.4.0", default-features = false, features = ["curve"] }
serde_json = "1.0"
serde = { version = "1.0", features = ["derive"] }
blake2 = { version = "0.10", default-features = false }
digest = { version = "0.10", default-features = false }
rayon = "1"
[profile.release]
debug = false
T
cd "$t" && cargo build --offline --release -q 2>build.log || { tail -20 build.log; exit 3; }
timeout 200 "${CARGO_TARGET_DIR:-target}"/release/demo
''')
os.chmod(f"{out}/demo.sh", 0o755)
json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
