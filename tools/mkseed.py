#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ for each bug of SPEC (a scratch tool, not used by any check).
SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, deps, demo)]."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = "/verif"
DEMO = '''#!/bin/bash
# exit 0: the property held in this demonstration; nonzero: it did not
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.82
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR=$T/target
mkdir -p "$T/demo/src"
cp "$here/demo.rs" "$T/demo/src/main.rs"
cp "$here/demo.toml" "$T/demo/Cargo.toml"
cp /repo/Cargo.lock "$T/demo/Cargo.lock"
cd "$T/demo" || exit 9
cargo build --offline -q 2>"$T/log" || { tail -30 "$T/log"; exit 8; }
TMPDIR=$T timeout 120 "$T/target/debug/demo"
'''
def git(*a, cwd):
    return subprocess.run(["git", *a], cwd=cwd, check=True, capture_output=True, text=True).stdout
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); s = importlib.util.module_from_spec(spec); spec.loader.exec_module(s)
only = sys.argv[2:]
for b in s.BUGS:
    if only and b["id"] not in only: continue
    t = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    git("worktree", "add", "--detach", "-f", t, "HEAD", cwd="/repo")
    try:
        for f, old, new in b["edits"]:
            p = f"{t}/{f}"; x = open(p).read()
            assert x.count(old) == 1, (b["id"], f, x.count(old))
            open(p, "w").write(x.replace(old, new))
        d = git("diff", cwd=t)
    finally:
        git("worktree", "remove", "--force", t, cwd="/repo")
    o = f"{V}/seeded/{b['id']}"
    os.makedirs(o, exist_ok=True)
    open(f"{o}/patch.diff", "w").write(d)
    open(f"{o}/demo.sh", "w").write(b.get("demo_sh", DEMO)); os.chmod(f"{o}/demo.sh", 0o755)
    if "demo" in b:
        open(f"{o}/demo.rs", "w").write(b["demo"].lstrip())
        open(f"{o}/demo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n' + b["deps"].strip() + "\n")
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{o}/meta.json", "w"), indent=1)
    print("made", b["id"])
