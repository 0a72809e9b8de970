#!/usr/bin/env python3
"""Development tool: turn the planted bugs of seeds*.py into /verif/seeded/<id>/ after confirming each in a scratch copy:
it applies, builds, passes the stable tests, and its demonstration passes without and fails with it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/seed"
REPO = W + "/repo"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", PROPTEST_RNG_SEED="1", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
RUST_DEMO = '''#!/bin/bash
# run in /repo: builds a small program against the library and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/p/src"
cp "$here/main.rs" "$d/p/src/main.rs"
cp "$repo/Cargo.lock" "$d/p/Cargo.lock"
cat > "$d/p/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
DEPS
T
cd "$d/p" && CARGO_TARGET_DIR="$d/t" timeout 280 cargo run -q --offline
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


def fresh():
    if not os.path.isdir(REPO + "/.git"):
        os.makedirs(W, exist_ok=True)
        sh(f"cp -a /repo {REPO}")
    sh(f"cd {REPO} && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git checkout -q -- .")


def make(s):
    sid = s["id"]
    fresh()
    for f, a, b in s["edits"]:
        p = f"{REPO}/{f}"
        t = open(p).read()
        if t.count(a) != 1:
            return f"{t.count(a)} places for: {a[:70]!r}"
        open(p, "w").write(t.replace(a, b))
    diff = sh(f"cd {REPO} && git diff").stdout
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if "main" in s:
        deps = s.get("deps", ["dandy"])
        open(d + "/main.rs", "w").write(s["main"].strip() + "\n")
        open(d + "/demo.sh", "w").write(RUST_DEMO.replace("DEPS", "\n".join(f'{x} = {{ path = "$repo/{x}" }}' for x in deps) + s.get("xdeps", "")))
    else:
        open(d + "/demo.sh", "w").write(s["demo"].lstrip())
    for n, c in s.get("files", {}).items():
        open(f"{d}/{n}", "w").write(c)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    r = sh("cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8", cwd=REPO)
    open(W + "/log", "w").write(r.stdout)
    sh(f"cd {REPO} && git checkout -q -- dandy/proptest-regressions")
    o = sh(f"python3 /opt/vp/results.py {W}/out.json 'cargo:{W}/log'")
    passed = set(json.load(open(W + "/out.json"))["passed"])
    lost = {x for x in STABLE if "doc" not in x} - passed
    doc = {x for x in lost if "line" in x or "(" in x}
    if lost - doc:
        shutil.rmtree(d) if not s.get("keep") else None
        return f"TESTS FAIL: {sorted(lost)[:5]} {r.stdout[-800:] if 'could not compile' in r.stdout else ''}"
    sh("cargo build --workspace --offline", cwd=REPO)
    a = sh(f"bash {d}/demo.sh", cwd=REPO)
    sh(f"cd {REPO} && git checkout -q -- . && cargo build --workspace --offline")
    b = sh(f"bash {d}/demo.sh", cwd=REPO)
    if b.returncode != 0 or a.returncode == 0:
        return f"DEMO with={a.returncode} without={b.returncode}\n{a.stdout[-300:]}\n---\n{b.stdout[-500:]}"
    return "ok " + " | ".join(x for x in a.stdout.split("\n") if "panicked" in x or "assert" in x)[:160]


g = {"V": V}
for f in sorted(os.listdir(V + "/stress")):
    if f.startswith("seeds"):
        exec(open(V + "/stress/" + f).read(), g)
for s in g["SEEDS"]:
    if len(sys.argv) > 1 and not any(s["id"].startswith(x) for x in sys.argv[1].split(",")):
        continue
    if len(sys.argv) == 1 and os.path.exists(f"{V}/seeded/{s['id']}/patch.diff"):
        continue
    print(s["id"], s["property"], make(s), flush=True)
