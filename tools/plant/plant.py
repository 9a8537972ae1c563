#!/usr/bin/env python3
"""Plant a bug: make patch.diff, demo and meta.json for each entry of bugs*.py, confirm them in a
scratch copy (builds, stable tests pass, demo passes before and fails after), keep them under
/verif/seeded, and optionally run the property's check against each.

usage: plant.py [--check] [--tier quick] [--only ID[,ID]] [--recheck]
"""
import json, os, re, subprocess, sys, shutil, glob, runpy

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = "/tmp/w/seed/repo"
BASE = "10e5158"

DEMO = '''#!/bin/sh
# Run with the repository as the working directory. Exits 0 if the property holds.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null || true
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
llvm-bitcursor = { path = "$repo/llvm-bitcursor", features = ["vbr"] }
llvm-bitstream = { path = "$repo/llvm-bitstream" }
llvm-mapper = { path = "$repo/llvm-mapper" }
llvm-support = { path = "$repo/llvm-support" }
[workspace]
TOML
cd "$work"
RUSTFLAGS="--cfg mollusc_verif -Awarnings" CARGO_TARGET_DIR="$work/target" \\
    cargo build --offline -q || exit 2
timeout 60 "$work/target/debug/demo"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def fresh():
    if not os.path.isdir(SCRATCH):
        os.makedirs(os.path.dirname(SCRATCH), exist_ok=True)
        sh(f"cp -a /repo {SCRATCH}")
    sh(f"git -C {SCRATCH} checkout -q -- .")
    sh(f"git -C {SCRATCH} fetch -q /repo HEAD && git -C {SCRATCH} reset -q --hard FETCH_HEAD")

def base_ok(diff):
    """Every changed line has to be a line of the original repository."""
    cur, ok = None, True
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = sh(f"git -C /repo show {BASE}:{line[6:]}").stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:] not in cur:
                print("   not an original line:", line[1:].strip()); ok = False
    return ok

def tests_ok():
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(f"cd {SCRATCH} && CARGO_TARGET_DIR=/tmp/w/seed/target cargo test --offline --workspace 2>&1", )
    return r.returncode == 0, r.stdout[-1500:]

def demo(d, repo):
    return sh(f"cd {repo} && sh {d}/demo.sh")

def plant(bug):
    d = os.path.join(SEEDED, bug["id"])
    fresh()
    for path, old, new in bug["edits"]:
        p = os.path.join(SCRATCH, path)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            print(f"   {bug['id']}: {n} matches in {path} of {old!r}"); return False
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {SCRATCH} diff").stdout
    if not base_ok(diff):
        return False
    if not any(l.startswith("-") and not l.startswith("---") for l in diff.splitlines()):
        print("   pure insertion"); 
    ok, out = tests_ok()
    if not ok:
        print("   build/tests fail:\n" + out); return False
    tmp = f"/tmp/w/seed/demo-{bug['id']}"
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(f"{tmp}/demo.sh", "w").write(DEMO)
    shutil.copy(os.path.join(HERE, "w.rs"), f"{tmp}/w.rs")
    head = "#[allow(unused)]\nmod w;\n#[allow(unused_imports)]\nuse w::*;\n"
    open(f"{tmp}/main.rs", "w").write(head + bug["demo"].strip("\n") + "\n")
    bad = demo(tmp, SCRATCH)
    if bad.returncode in (0, 2):
        print("   demo with the bug:", bad.returncode, bad.stdout[-800:], bad.stderr[-1500:]); return False
    sh(f"git -C {SCRATCH} checkout -q -- .")
    good = demo(tmp, SCRATCH)
    if good.returncode != 0:
        print("   demo without the bug:", good.returncode, good.stderr[-1500:]); return False
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    return True

def check(bug, tier):
    d = os.path.join(SEEDED, bug["id"])
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        return "patch does not apply: " + r.stderr
    try:
        r = sh(f"cd {VERIF} && bash run.sh {bug['property']} --tier {tier}")
    finally:
        sh("git -C /repo checkout -- .")
    lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return f"exit {r.returncode} {'CAUGHT' if lines and r.returncode == 1 else 'MISSED'} {lines[:1]}" + (
        "" if lines else r.stdout[-300:] + r.stderr[-300:])

if __name__ == "__main__":
    bugs = []
    for f in sorted(glob.glob(os.path.join(HERE, "bugs*.py"))):
        bugs += runpy.run_path(f)["BUGS"]
    args = sys.argv[1:]
    only = args[args.index("--only") + 1].split(",") if "--only" in args else None
    tier = args[args.index("--tier") + 1] if "--tier" in args else "quick"
    for b in bugs:
        if only and b["id"] not in only: continue
        have = os.path.exists(os.path.join(SEEDED, b["id"], "patch.diff"))
        if "--recheck" not in args:
            if have and not only:
                continue
            ok = plant(b)
            print(b["id"], "planted" if ok else "NOT PLANTED", flush=True)
            if not ok: continue
        elif not have:
            continue
        if "--check" in args or "--recheck" in args:
            print("  ", b["id"], b["property"], check(b, tier), flush=True)
