#!/usr/bin/env python3
"""Records a planted bug: plant.py SPEC.py   (SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=rust main)
Confirms in the scratch copy /tmp/pw/repo that it builds, passes the stable tests, and that the demonstration tells it apart."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/pw/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert run("git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD" % (W, W, W)).returncode == 0
d = "%s/seeded/%s" % (V, ns["ID"])
os.makedirs(d, exist_ok=True)
open(d + "/demo.rs", "w").write(ns["DEMO"])
open(d + "/demo.sh", "w").write("""#!/bin/bash
# builds demo.rs against the crate in the current directory, in a scratch directory of its own
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
sci-rs = { path = "$R/sci-rs", features = ["std"] }
nalgebra = "*"
ndarray = "*"
[workspace]
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 250 cargo run --offline -q
""")
os.chmod(d + "/demo.sh", 0o755)
def demo(): return run("bash %s/demo.sh" % d, cwd=W)
r = demo()
if r.returncode != 0: sys.exit("demo fails on the unchanged tree: " + r.stderr[-2500:])
for f, a, b in ns["EDITS"]:
    p = "%s/sci-rs/src/%s" % (W, f)
    s = open(p).read()
    if s.count(a) != 1: sys.exit("edit matches %d times in %s: %r" % (s.count(a), f, a))
    open(p, "w").write(s.replace(a, b))
open(d + "/patch.diff", "w").write(run("git -C %s diff" % W).stdout)
r = demo()
if r.returncode == 0: sys.exit("demo passes with the change")
print("demo:", [l for l in (r.stderr+r.stdout).splitlines() if "panicked" in l or "assert" in l or "left" in l or "right" in l][:4])
r = run("cd %s && cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1" % W)
import re
res = {}
for m in re.finditer(r"^test (\S+)(?: - should panic)? \.\.\. (\w+)", r.stdout, re.M):
    res[m.group(1)] = res.get(m.group(1), "ok") if m.group(2) == "ok" else m.group(2)
base = json.load(open("/opt/vp/BASELINE.json"))
txt = json.dumps(base)
bad = [t for t, v in res.items() if v == "FAILED" and t in txt]
if bad: sys.exit("stable tests fail: %s" % bad)
if "error: could not compile" in r.stdout or len(res) < 60: sys.exit("does not build: " + r.stdout[-2000:])
print("failed (not stable):", [t for t, v in res.items() if v == "FAILED"], "of", len(res))
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
run("git -C %s checkout -q -- ." % W)
print("planted", ns["ID"])
