#!/usr/bin/env python3
"""usage: plant.py <spec.py> [id...]   -- builds /verif/seeded/<id>/ from edits, after confirming in a scratch copy that the
change applies, builds, passes the stable tests, and that the demonstration separates the two trees.
spec.py defines B = [dict(id, property, needs, what, edits=[(file, old, new)...], demo="rust main body")]"""
import subprocess, sys, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant/repo"
DEMO = '''#!/bin/bash
# builds main.rs (beside this file) against the crate in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
kyber-rs = { path = "$repo" }
serde = { version = "1", features = ["derive"] }
bincode = "1.3.3"
serde_json = "1"
sha2 = "0.10.6"
num-bigint-dig = "0.8"
[profile.dev]
overflow-checks = false
debug = false
opt-level = 1
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTC_WRAPPER= cargo run --offline --quiet
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def reset():
    if not os.path.isdir(W):
        os.makedirs("/tmp/plant", exist_ok=True); sh(f"cp -a /repo {W}")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=W)
ns = {}; exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
for b in ns["B"]:
    if want and b["id"] not in want: continue
    d = f"{V}/seeded/{b['id']}"; tmp = f"/tmp/plant/{b['id']}"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    reset()
    ok = True
    for f, o, n, *nth in b["edits"]:
        s = open(f"{W}/{f}").read()
        if s.count(o) != 1 and not nth: print(b["id"], "EDIT", f, s.count(o)); ok = False; break
        parts = s.split(o); k = (nth[0] if nth else 0) % (len(parts) - 1)  # nth occurrence
        open(f"{W}/{f}", "w").write(o.join(parts[:k + 1]) + n + o.join(parts[k + 1:]))
    if not ok: continue
    open(f"{tmp}/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
    open(f"{tmp}/demo.sh", "w").write(DEMO); os.chmod(f"{tmp}/demo.sh", 0o755)
    open(f"{tmp}/main.rs", "w").write(b["demo"])
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(f"{tmp}/meta.json", "w"), indent=1)
    # changed lines must be lines of the original
    bl = sh("git diff -U0 | grep -E '^-[^-]' | cut -c2-", cwd=W).stdout.splitlines()
    orig = subprocess.check_output(["git", "-C", "/repo", "grep", "-h", "", "074b22e", "--", "src"], text=True)
    new = [l for l in bl if l.strip() and l not in orig]
    if new: print(b["id"], "NOT ORIGINAL:", new)
    r = sh(f"bash {tmp}/demo.sh", cwd=W)
    if r.returncode == 0: print(b["id"], "demo does not fail with the change", r.stdout[-600:]); continue
    bad = r.stdout[-300:]
    if "could not compile" in r.stdout: print(b["id"], "COMPILE", r.stdout[-1500:]); continue
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test |error'", cwd=W)
    base = json.load(open("/opt/vp/BASELINE.json"))
    failed = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error")]
    npass = sum("... ok" in l for l in t.stdout.splitlines())
    if failed or npass < 138: print(b["id"], "TESTS", npass, failed[:5]); continue
    sh("git checkout -q -f .", cwd=W)
    r = sh(f"bash {tmp}/demo.sh", cwd=W)
    if r.returncode != 0: print(b["id"], "demo fails on the clean tree", r.stdout[-800:]); continue
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    print(b["id"], "OK  (", bad.strip().splitlines()[-1][:150] if bad.strip() else "", ")", flush=True)
