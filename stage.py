#!/usr/bin/env python3
"""Lay out /verif/build/ws: a cargo workspace over /repo's own source files.

Every cnosdb crate is a symlink to its directory in /repo, so cargo compiles the
files of /repo themselves (never a copy).  What is derived:

  Cargo.toml      /repo's [workspace.dependencies] with the third-party crates that
                  this offline sandbox does not have replaced by the path crates in
                  /verif/shims, /repo's profiles dropped, our members added
  Cargo.lock      /repo's (cargo prunes it), so every third-party version is /repo's

A file is only rewritten when its content changes: builds stay incremental."""
import os, re, shutil, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WS = os.path.join(VERIF, "build", "ws")

def read(p):
    with open(p, encoding="utf-8") as f:
        return f.read()

def write(p, text):
    if os.path.islink(p):
        os.unlink(p)
    if not os.path.exists(p) or read(p) != text:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(text)

def link(target, p):
    if os.path.islink(p):
        if os.readlink(p) == target:
            return
        os.unlink(p)
    elif os.path.isdir(p):
        shutil.rmtree(p)
    elif os.path.exists(p):
        os.unlink(p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    os.symlink(target, p)

# never staged: they need the real SQL engine / CLI dependencies
LEFT_OUT = {"client", "coordinator", "e2e_test", "main", "query_server/query", "query_server/spi"}
# staged with a derived manifest (their own names dependencies this sandbox does not have):
# the sources are /repo's, the manifest loses tests, benches, binaries and optional parts
# (and, where listed, the modules that need the consensus engine or an HTTP server)
DERIVED = {
    "common/models": [], "common/memory_pool": [], "common/protocol_parser": [], "tskv": [],
    "replication": ["multi_raft", "network_client", "network_grpc", "network_http", "raft_node", "metrics"],
    "meta": ["meta_cluster_command", "service", "signal"],
}

def derived(member):
    out, skip = [], False
    for line in read(f"{REPO}/{member}/Cargo.toml").splitlines():
        h = re.match(r"^\[+(.*?)\]+\s*$", line)
        if h:
            skip = h.group(1) in ("dev-dependencies", "bench", "bin", "features", "test", "example") or (
                h.group(1).startswith("target.") and "cfg(unix)" not in h.group(1)) or h.group(1).startswith("package.")
        if skip or "optional = true" in line:
            continue
        out.append(line)
        if h and h.group(1) == "package":
            out += ["autobins = false", "autotests = false", "autobenches = false", "autoexamples = false"]
    return "\n".join(out) + "\n\n[features]\nbacktrace = []\n"

def main():
    root = read(f"{REPO}/Cargo.toml")
    m = re.search(r"^members\s*=\s*\[(.*?)\]", root, re.S | re.M)
    listed = re.findall(r'"([^"]+)"', m.group(1))
    members = [x for x in listed if x not in LEFT_OUT]
    for x in members:
        if x not in DERIVED:
            link(f"{REPO}/{x}", f"{WS}/{x}")
            continue
        if os.path.islink(f"{WS}/{x}"):
            os.unlink(f"{WS}/{x}")
        write(f"{WS}/{x}/Cargo.toml", derived(x))
        src = f"{WS}/{x}/src"
        if not DERIVED[x]:
            link(f"{REPO}/{x}/src", src)
            continue
        if os.path.islink(src):
            os.unlink(src)
        os.makedirs(src, exist_ok=True)
        there = set(os.listdir(f"{REPO}/{x}/src"))
        for name in set(os.listdir(src)) - there:
            os.unlink(f"{src}/{name}")
        for name in there - {"lib.rs"}:
            link(f"{REPO}/{x}/src/{name}", f"{src}/{name}")
        lib = read(f"{REPO}/{x}/src/lib.rs")
        for mod in DERIVED[x]:
            lib = re.sub(rf"^\s*(pub )?mod {mod};.*\n", "", lib, flags=re.M)
        write(f"{src}/lib.rs", lib)
    link(f"{VERIF}/harness", f"{WS}/harness")
    link(f"{VERIF}/shims", f"{WS}/shims")

    deps = root[root.index("[workspace.dependencies]"):]
    deps = deps[: deps.index("[workspace.package]")]
    shims = {d for d in os.listdir(f"{VERIF}/shims") if os.path.exists(f"{VERIF}/shims/{d}/Cargo.toml")} if os.path.isdir(f"{VERIF}/shims") else set()
    out = []
    for line in deps.splitlines():
        k = re.match(r"^([A-Za-z0-9_-]+)\s*=", line)
        if k and k.group(1) in shims:
            line = f'{k.group(1)} = {{ path = "shims/{k.group(1)}" }}'
        out.append(line)
    deps = "\n".join(out)
    pkg = root[root.index("[workspace.package]"):]
    pkg = pkg[: pkg.index("[profile.dev]")]
    pkg = "\n".join(l for l in pkg.splitlines() if not l.startswith("#"))

    own = [f"harness/{d}" for d in sorted(os.listdir(f"{VERIF}/harness"))
           if os.path.exists(f"{VERIF}/harness/{d}/Cargo.toml")]
    own += [f"shims/{d}" for d in sorted(shims)]
    text = (
        "# generated by /verif/stage.py\n[workspace]\nresolver = \"2\"\nmembers = [\n"
        + "".join(f'    "{x}",\n' for x in members + own) + "]\n\n"
        + deps + "\n" + pkg + "\n"
        + """
[profile.dev]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = true
codegen-units = 16
panic = "unwind"
"""
    )
    write(f"{WS}/Cargo.toml", text)
    lock = f"{WS}/Cargo.lock"
    if not os.path.exists(lock) or os.environ.get("VERIF_RELOCK"):
        committed = f"{VERIF}/Cargo.lock.ws"
        write(lock, read(committed) if os.path.exists(committed) else read(f"{REPO}/Cargo.lock"))
    return 0

if __name__ == "__main__":
    sys.exit(main())
