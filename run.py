#!/usr/bin/env python3
"""./run.py <PROPERTY>: rebuild what the property's monitor needs from /repo's current
tree and run it.  Exit 0 held, 1 violated (a VIOLATION line is printed), else no verdict."""
import json, os, re, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import stage

ENV = dict(os.environ)
ENV.update(
    HOME="/root",
    PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    RUSTUP_TOOLCHAIN="1.82", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
    RUSTC_WRAPPER="", CARGO_TARGET_DIR=f"{VERIF}/build/target",
    VERIF_KNOWN=f"{VERIF}/known_findings.jsonl", VERIF_OUT=f"{VERIF}/evidence",
    VERIF_DIR=VERIF,
    # tskv asks for parking_lot's "nightly" feature
    RUSTC_BOOTSTRAP="parking_lot,lock_api,parking_lot_core",
)
ENV.setdefault("VERIF_SEED", "1")
ENV.setdefault("VERIF_TIER", "quick")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUST_LOG"):
    ENV.pop(k, None)

# property -> harness package (its binary has the same name)
with open(f"{VERIF}/checks.json", encoding="utf-8") as f:
    CHECKS = json.load(f)

def cargo(args, timeout, log):
    with open(log, "wb") as f:
        p = subprocess.Popen(["cargo", *args], cwd=f"{VERIF}/build/ws", env=ENV, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None

def build(pkgs, timeout=1700):
    stage.main()
    os.makedirs(f"{VERIF}/build", exist_ok=True)
    log = f"{VERIF}/build/cargo.log"
    # --workspace keeps cargo's feature unification the same whichever binary is built:
    # what setup compiled is then what every check reuses
    args = ["build", "--offline", "--workspace"]
    for p in pkgs:
        args += ["--bin", p]
    rc = cargo(args, timeout, log)
    if rc != 0:
        with open(log, encoding="utf-8", errors="replace") as f:
            text = f.read()
        errs = re.findall(r"^error.*(?:\n.*){0,6}", text, re.M)
        print("BUILD FAILED" if rc is not None else "BUILD TIMED OUT")
        print("\n".join(errs[:8]) or text[-3000:])
        return False
    return True

def run(prop):
    thorough = ENV["VERIF_TIER"] == "thorough"
    c = CHECKS[prop]
    ev = f"{VERIF}/evidence"
    os.makedirs(f"{ev}/replay", exist_ok=True)
    for f in os.listdir(f"{ev}/replay"):
        if f.startswith(prop + "-"):
            os.unlink(f"{ev}/replay/{f}")
    t0 = time.time()
    if not build([c["pkg"]], 850 if not thorough else 1700):
        return 2
    t1 = time.time()
    print(f"built {c['pkg']} in {t1 - t0:.1f} s", flush=True)
    work = f"{VERIF}/build/work/{prop}"
    subprocess.run(["rm", "-rf", work])
    os.makedirs(work)
    env = dict(ENV, VERIF_WORK=work, TMPDIR=work)
    exe = f"{VERIF}/build/target/debug/{c['pkg']}"
    limit = 6 * 3600 if thorough else max(60, 880 - (t1 - t0))
    log = f"{ev}/replay/{prop}-stderr.log"
    with open(log, "wb") as err:
        p = subprocess.Popen([exe, prop], cwd=work, env=env, stdout=subprocess.PIPE, stderr=err, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    text = out.decode("utf-8", "replace")
    sys.stdout.write(text)
    subprocess.run(["rm", "-rf", work])
    with open(log, "rb") as f:
        tail = f.read()[-3000:].decode("utf-8", "replace")
    if rc is None:
        print(f"INCONCLUSIVE {prop}: the watchdog ended the run\n{tail}")
        return 3
    if rc in (0, 1):
        return rc
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE):
        # the process itself was killed by a memory fault or an abort inside the code under test
        print(tail)
        print(f"the monitored process died with signal {-rc}")
        print(f"VIOLATION property={prop} replay={log}")
        return 1
    print(tail)
    print(f"no verdict: exit {rc}")
    return rc if rc and rc > 1 else 3

def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        ok = build(sorted({c["pkg"] for c in CHECKS.values()}))
        return 0 if ok else 2
    return run(a[0])

if __name__ == "__main__":
    sys.exit(main())
