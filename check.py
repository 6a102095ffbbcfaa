#!/usr/bin/env python3
"""Driver of the simulation checks: build from /repo's working tree, search seeds, shrink, replay, report.

usage: check.py build
       check.py <property> quick|thorough
       check.py replay <file>
"""
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SIM = os.path.join(VERIF, "sim")
TARGET = os.path.join(VERIF, "target")
NCPU = os.cpu_count() or 4

QUICK_S = 90.0
THOROUGH_S = 1500.0

PROPS = json.load(open(os.path.join(VERIF, "coverage.json")))


def cpu_level():
    need = {"avx512f", "avx512bw", "avx512cd", "avx512dq", "avx512vl"}
    try:
        for line in open("/proc/cpuinfo"):
            if line.startswith("flags"):
                return "x86-64-v4" if need <= set(line.split(":", 1)[1].split()) else "x86-64"
    except OSError:
        pass
    return "x86-64"


# name -> (target directory, cargo profile, features, cpu level); the index is part of every run seed
CONFIGS = [
    ("portable-release", "fallback", "release", False),
    ("full-release", "full", "release", True),
    ("portable-checked", "fallback", "checked", False),
    ("full-checked", "full", "checked", True),
]


def bin_path(i):
    _, tdir, prof, _ = CONFIGS[i]
    return os.path.join(TARGET, tdir, prof, "versim-bin")


def lib_path(i):
    _, tdir, prof, _ = CONFIGS[i]
    return os.path.join(TARGET, tdir, prof, "libversim.so")


def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for root in (os.path.join(REPO, "src"), os.path.join(SIM, "src")):
        for d, _, fs in os.walk(root):
            files += [os.path.join(d, f) for f in fs]
    files.append(os.path.join(SIM, "Cargo.toml"))
    for f in sorted(files):
        h.update(f.encode())
        try:
            with open(f, "rb") as fh:
                h.update(fh.read())
        except OSError:
            pass
    return h.hexdigest()


def harness_error(msg):
    print("HARNESS-ERROR: " + msg, flush=True)
    sys.exit(2)


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = source_hash()
        level = cpu_level()
        env = dict(os.environ)
        env.update(RUSTC_BOOTSTRAP="versim,versim_bin", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
            env.pop(k, None)
        t0 = time.time()

        def spawn(i):
            name, tdir, prof, full = CONFIGS[i]
            e = dict(env)
            e["CARGO_TARGET_DIR"] = os.path.join(TARGET, tdir)
            e["RUSTFLAGS"] = "-C target-cpu=" + (level if full else "x86-64")
            stamp = os.path.join(TARGET, tdir, ".hash-" + prof)
            try:
                fresh = open(stamp).read() == want
            except OSError:
                fresh = False
            if not fresh and os.path.isdir(os.path.join(TARGET, tdir, prof)):
                # never trust file times: whatever was built from other sources goes
                subprocess.run(["cargo", "clean", "--offline", "--profile", prof, "-p", "vers-vecs", "-p", "versim"],
                               cwd=SIM, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            cmd = ["cargo", "build", "--offline", "--profile", prof]
            if full:
                cmd += ["--features", "full"]
            out = open(os.path.join(TARGET, "build-%s.log" % name), "wb")
            return subprocess.Popen(cmd, cwd=SIM, env=e, stdout=out, stderr=subprocess.STDOUT), stamp, name

        # the two target directories build in parallel, their two profiles one after the other
        bad = []
        for pair in ((0, 1), (2, 3)):
            for p, stamp, name in [spawn(i) for i in pair]:
                if p.wait() != 0:
                    bad.append(name)
                else:
                    with open(stamp, "w") as f:
                        f.write(want)
        if bad:
            for n in bad:
                print(open(os.path.join(TARGET, "build-%s.log" % n), errors="replace").read()[-4000:])
            harness_error("build failed: " + ", ".join(bad))
        return time.time() - t0


def nodes_arg():
    return ",".join(lib_path(i) for i in range(4))


def run_workers(prop, seed, secs, configs):
    tmp = tempfile.mkdtemp(prefix="versim-")
    per = max(1, NCPU // len(configs))
    procs = []
    for c in configs:
        for s in range(per):
            out = os.path.join(tmp, "o-%d-%d.json" % (c, s))
            cmd = [bin_path(c), "worker", "--prop", prop, "--seed", str(seed), "--cfg", str(c), "--shard", str(s),
                   "--shards", str(per), "--secs", str(secs), "--out", out, "--hashes", out + ".h", "--nodes", nodes_arg()]
            procs.append((c, s, out, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    results, stop = [], False
    deadline = time.time() + secs + 120
    pending = list(procs)
    while pending:
        time.sleep(0.1)
        for item in list(pending):
            c, s, out, p = item
            if p.poll() is None:
                if stop or time.time() > deadline:
                    p.kill()
                    p.wait()
                    pending.remove(item)
                continue
            pending.remove(item)
            err = p.stderr.read().decode(errors="replace")
            if p.returncode != 0 or not os.path.exists(out):
                if not stop:
                    harness_error("worker %d/%d ended with %s: %s" % (c, s, p.returncode, err[-2000:]))
                continue
            r = json.load(open(out))
            r["cfg"] = c
            try:
                r["hashes"] = open(out + ".h", "rb").read()
            except OSError:
                r["hashes"] = b""
            results.append(r)
            if r["violation"]:
                stop = True
    for f in glob.glob(os.path.join(tmp, "*")):
        os.unlink(f)
    os.rmdir(tmp)
    return results


def tool(cfg, mode, path, *extra):
    p = subprocess.run([bin_path(cfg), mode, "--file", path, "--nodes", nodes_arg()] + list(extra), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if p.returncode != 0:
        harness_error("%s failed: %s" % (mode, p.stderr.decode(errors="replace")[-1000:]))
    return json.loads(p.stdout.decode(errors="replace"))


def known_findings():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return {"findings": [], "fixed": []}


def report(prop, seed, r):
    v = r["violation"]
    cfg = r["cfg"]
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    doc = {"property": prop, "config": CONFIGS[cfg][0], "verif_seed": seed, "run_index": v["index"], "run_seed": v["run_seed"],
           "class": v["class"], "msg": v["msg"], "choices": v["choices"]}
    path = os.path.join(rdir, "%s-%s.json" % (prop, v["run_seed"]))
    json.dump(doc, open(path, "w"))
    # does the recorded history reproduce at all?
    ok = any(tool(cfg, "replay", path)["class"] == v["class"] for _ in range(5))
    if not ok:
        harness_error("violation %s (%s) did not reproduce from its recorded choices" % (v["class"], v["msg"]))
    small = tool(cfg, "shrink", path, "--secs", "25")
    json.dump(small, open(path, "w"))
    a, b = tool(cfg, "replay", path), tool(cfg, "replay", path)
    if a["class"] != v["class"] or a["hash"] != b["hash"]:
        # keep the unshrunk history, which reproduces
        json.dump(doc, open(path, "w"))
        a = tool(cfg, "replay", path)
    print("violated: %s" % v["class"])
    print("  %s" % (a["msg"] or v["msg"]))
    print("  config %s, seed %s, run %s (run seed %s), %s choices after minimisation" %
          (CONFIGS[cfg][0], seed, v["index"], v["run_seed"], a["choices"]))
    for line in a["trace"][-25:]:
        print("  | " + line[:300])
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        print("built in %.1f s" % build())
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        build()
        doc = json.load(open(sys.argv[2]))
        cfg = [c[0] for c in CONFIGS].index(doc["config"])
        r = tool(cfg, "replay", sys.argv[2])
        for line in r["trace"]:
            print(line)
        print(r["status"], r["class"], r["msg"], r["hash"])
        if r["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (doc["property"], sys.argv[2]))
            return 1
        return 0
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    info = PROPS[prop]
    build_s = build()
    secs = float(os.environ.get("VERSIM_SECS", QUICK_S if tier == "quick" else THOROUGH_S))
    configs = info.get("configs", [0, 1, 2, 3])
    results = run_workers(prop, seed, secs, configs)
    runs = sum(r["runs"] for r in results)
    nontriv = sum(r["nontrivial"] for r in results)
    distinct = set()
    for r in results:
        h = r["hashes"]
        distinct.update((r["cfg"], h[i:i + 8]) for i in range(0, len(h), 8))
    stats = {}
    for r in results:
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
    viol = [r for r in results if r["violation"]]
    harness = [r for r in results if r["harness"]]
    wall = time.time() - t0
    search = max([r["wall_s"] for r in results] or [0.001])
    faults = {k[6:]: n for k, n in stats.items() if k.startswith("fault.")}
    other = {k: n for k, n in stats.items() if not k.startswith("fault.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": len(viol),
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(distinct), "rule": info["rule"],
            "samples": [s for r in results for s in r["samples"]][:6] or ["(no sample: the run ended with a violation)"],
            "nontrivial_runs": nontriv,
            "inconclusive_runs": sum(r["inconclusive"] for r in results),
            "simulated_events": sum(r["steps"] for r in results),
            "runs_per_hour": int(runs / search * 3600),
            "simulated_time": "no clock in the system under test; time is the count of simulated events",
            "faults_injected": faults, "probes": other,
            "runs_per_config": {CONFIGS[c][0]: sum(r["runs"] for r in results if r["cfg"] == c) for c in configs},
            "interleavings_measure": "distinct 64-bit hashes over all draws, events and preemption addresses of a run, per configuration",
            "real_components": info["real"], "stubs": info["stubs"],
            "cpu_level_of_full_builds": cpu_level(), "build_s": round(build_s, 1),
        },
        "assumptions": info["assumptions"],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for f in known_findings()["findings"]:
        if f["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    print("%s %s: %d runs (%d distinct non-trivial) in %.1f s search, %.1f s total; faults %s" %
          (prop, tier, runs, len(distinct), search, wall, faults), flush=True)
    if viol:
        report(prop, seed, min(viol, key=lambda r: len(r["violation"]["choices"])))
        return 1
    if harness:
        harness_error(json.dumps(harness[0]["harness"]))
    if runs == 0 or len(distinct) < 20:
        harness_error("the search explored too little: %d runs, %d distinct" % (runs, len(distinct)))
    inc = sum(r["inconclusive"] for r in results)
    if inc * 4 > runs:
        harness_error("too many inconclusive runs: %d of %d (%s)" % (inc, runs, results[0]["inconclusive_msg"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
