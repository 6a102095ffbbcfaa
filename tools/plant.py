#!/usr/bin/env python3
"""Author-side tool (no check uses it): confirm seeded changes and see which checks catch them.

usage: plant.py new SPEC.py...        write seeded/<id> from a spec (edits, demo, meta)
       plant.py confirm ID...         patch applies, builds, stable tests pass, demo 0 clean / non-zero patched
       plant.py catch ID... [--prop P]  run the quick check of the bug's property with the patch applied
"""
import json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"

DEMO = """#!/bin/bash
# exit 0 when the property holds, non-zero when it does not; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 99
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
vers-vecs = { path = "$repo", features = [%FEATURES%] }
%DEPS%
[profile.release]
overflow-checks = false
EOF
cd "$d" || exit 99
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
%ENV%
cargo build --offline --release -q || exit 0  # a tree that does not build shows nothing
timeout 200 ./target/release/demo
"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, **k)

def out(cmd):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def clean():
    sh("git -C /repo checkout -q -- .")
    assert out("git -C /repo status --porcelain").stdout == "", "repo not clean"

def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(SEEDED, b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        clean()
        try:
            for f, old, neu in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, neu))
            for f, old, neu in b.get("sub", []):
                p = os.path.join(REPO, f)
                s, k = re.subn(old, neu, open(p).read())
                assert k, (b["id"], f, old)
                open(p, "w").write(s)
            diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE, text=True).stdout
        finally:
            clean()
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        env = b.get("env", "export RUSTFLAGS=\"-C target-cpu=x86-64\"")
        demo = DEMO.replace("%FEATURES%", ", ".join('"%s"' % x for x in b.get("features", []))).replace("%DEPS%", b.get("deps", "")).replace("%ENV%", env)
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "main.rs"), "w").write(b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("wrote", b["id"])

def demo(i):
    tmp = "/tmp/demo-%s" % i
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, i), tmp)
    for f in ("patch.diff", "meta.json"):
        os.remove(os.path.join(tmp, f))
    r = subprocess.run(["bash", os.path.join(tmp, "demo.sh")], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(tmp)
    return r.returncode, r.stdout[-400:]

def confirm(i):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    if base is None:
        j = json.load(open("/opt/vp/BASELINE.json"))
        base = set(j.get("passed") or j.get("tests"))
    clean()
    c, o = demo(i)
    if c != 0:
        print(i, "BAD demo fails on clean tree", c, o); return False
    r = out("git -C /repo apply %s/%s/patch.diff" % (SEEDED, i))
    try:
        if r.returncode:
            print(i, "BAD patch", r.stdout); return False
        r = out("bash /opt/vp/build.sh")
        if r.returncode:
            print(i, "BAD build", r.stdout[-1500:]); return False
        out("bash /opt/vp/test.sh /tmp/plant-tests.json")
        res = json.load(open("/tmp/plant-tests.json"))
        missing = sorted(base - set(res["passed"]))
        if missing:
            print(i, "BAD tests", missing[:6]); return False
        c, o = demo(i)
        if c == 0:
            print(i, "BAD demo passes with patch", o); return False
        print(i, "ok   (demo %d: %s)" % (c, o.strip().splitlines()[-1] if o.strip() else ""))
        return True
    finally:
        clean()

def catch(i, prop=None):
    prop = prop or json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]
    clean()
    r = out("git -C /repo apply %s/%s/patch.diff" % (SEEDED, i))
    assert r.returncode == 0, r.stdout
    try:
        t = time.time()
        r = out("cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % (VERIF, prop))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, prop, "CAUGHT" if r.returncode == 1 and v else "MISSED", r.returncode, "%.0fs" % (time.time() - t), flush=True)
        for l in r.stdout.splitlines():
            if l.strip().startswith("config "):
                print("      ", l.strip()[:200])
        tail = [l for l in r.stdout.splitlines() if l.strip()][-4:]
        for l in tail:
            print("      ", l[:220])
    finally:
        clean()

if __name__ == "__main__":
    mode, args = sys.argv[1], sys.argv[2:]
    prop = None
    if "--prop" in args:
        k = args.index("--prop"); prop = args[k + 1]; del args[k:k + 2]
    if args == ["all"]:
        args = sorted(os.listdir(SEEDED))
    for a in args:
        {"new": new, "confirm": confirm}.get(mode, lambda x: catch(x, prop))(a)
