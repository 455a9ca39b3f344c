#!/usr/bin/env python3
"""Planted changes: seed.py new ID (from a scratch edit), seed.py verify ID..., seed.py check ID...

new: takes 'git diff' of /tmp/sw/repo, main.rs from stdin, writes seeded/ID.
verify: stable tests pass with the patch; demo passes without and fails with it (scratch copy).
check: applies to /repo, runs ./check PROP quick, reverts."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = os.environ.get("SW", "/tmp/sw")
R = SW + "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def scratch():
    if not os.path.isdir(R):
        os.makedirs(SW, exist_ok=True)
        sh("cp -a /repo %s" % R)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh("git -C %s fetch -q /repo HEAD; git -C %s checkout -q -f %s" % (R, R, head))
DEMO = '''#!/bin/bash
# Run in the repository's root: exit 0 if the behaviour is intact.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/src"
cp "$HERE/main.rs" "$W/src/main.rs"
cp "$HERE/demo.lock" "$W/Cargo.lock"
sed "s#@REPO@#$REPO#" "$HERE/demo.toml" > "$W/Cargo.toml"
cd "$W"
export CARGO_TARGET_DIR="$W/target"
cargo build -q --offline %(feat)s
timeout 120 "$W/target/debug/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[features]
pre-rfc8301 = ["viadkim/pre-rfc8301"]
[dependencies]
viadkim = { path = "@REPO@" }
tokio = { version = "1.33.0", default-features = false, features = ["rt", "time", "test-util"] }
rsa = { version = "0.9.6", default-features = false, features = ["std"] }
ed25519-dalek = { version = "2.0.0", features = ["pkcs8"] }
[profile.dev]
debug = 0
'''
def lock():
    p = SW + "/demo.lock"
    if not os.path.exists(p):
        d = SW + "/lk"; os.makedirs(d + "/src", exist_ok=True)
        open(d + "/src/main.rs", "w").write("fn main(){}")
        open(d + "/Cargo.toml", "w").write(TOML.replace("@REPO@", "/repo"))
        shutil.copy(V + "/harness/Cargo.lock", d + "/Cargo.lock")
        print(sh("cd %s && cargo generate-lockfile --offline; cp /verif/harness/Cargo.lock Cargo.lock; cargo tree --offline >/dev/null && cp Cargo.lock %s" % (d, p)).stdout)
    return p
def new(i, prop, needs, breaks, main, feat=""):
    d = V + "/seeded/" + i
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C %s diff" % R).stdout
    assert diff.strip(), "no change"
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(main)
    open(d + "/demo.sh", "w").write(DEMO % {"feat": feat and "--features " + feat})
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.toml", "w").write(TOML)
    shutil.copy(lock(), d + "/demo.lock")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh("git -C %s checkout -q -- ." % R)
def verify(i):
    d = V + "/seeded/" + i
    scratch()
    sh("git -C %s checkout -q -- ." % R)
    o = sh("bash %s/demo.sh" % d, cwd=R)
    ok0 = o.returncode == 0
    if not ok0: print(o.stdout[-1500:])
    a = sh("git -C %s apply %s/patch.diff" % (R, d))
    if a.returncode: print("does not apply", a.stdout); return False
    e = dict(os.environ, CARGO_TARGET_DIR=R + "/target", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    out = ""
    for f in ("", "--features pre-rfc8301"):
        sh("rm -rf %s/target/debug/.fingerprint/viadkim-*" % R)
        out += sh("cargo test --workspace --no-fail-fast --offline %s -- --test-threads 8" % f, cwd=R, env=e).stdout
    failed = re.findall(r"test (.*) \.\.\. FAILED", out)
    comp = "error" in out and "could not compile" in out
    passed = len(re.findall(r"test .* \.\.\. ok", out))
    o = sh("bash %s/demo.sh" % d, cwd=R)
    ok1 = o.returncode != 0 and "could not compile" not in o.stdout
    print("   demo with patch:", o.returncode, o.stdout.strip()[-300:])
    sh("git -C %s checkout -q -- ." % R)
    good = ok0 and ok1 and not failed and not comp and passed >= 142
    print("%s: base demo %s, patched demo fails %s, tests passed %d failed %s %s => %s" % (i, ok0, ok1, passed, failed, "COMPILE ERROR" if comp else "", "GOOD" if good else "BAD"))
    if comp: print(out[-2000:])
    return good
def check(i, tier="quick"):
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    a = sh("git -C /repo apply %s/patch.diff" % d)
    assert a.returncode == 0, a.stdout
    try:
        o = sh("./check %s %s" % (prop, tier), cwd=V)
    finally:
        sh("git -C /repo checkout -q -- .")
    v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%s %s: exit %d %s" % (i, prop, o.returncode, "CAUGHT" if o.returncode == 1 and v else "MISSED"))
    print("     " + "\n     ".join(o.stdout.splitlines()[:3])[:500])
    return o.returncode == 1 and bool(v)
if __name__ == "__main__":
    if sys.argv[1] == "scratch": scratch()
    elif sys.argv[1] == "new":
        m = json.loads(sys.argv[2]); new(m["id"], m["property"], m["needs"], m["breaks"], sys.stdin.read(), m.get("feat", ""))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        f = {"verify": verify, "check": check}[sys.argv[1]]
        bad = [i for i in ids if not f(i)]
        print("NOT OK:", bad)
