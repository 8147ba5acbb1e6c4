#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.

    run.py --property P01 [--tier quick|thorough]
    run.py --setup

The analyser (analyzer/, a rustc_private driver) replaces rustc for the workspace crates of a `cargo check`
of /repo's current working tree and abstractly interprets the type-checked MIR.  It writes one JSON obligation
per line; this script turns them into the verdict and the evidence file.
"""
import argparse, fcntl, json, os, shutil, subprocess, sys, time, collections

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PLONKY_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
DRIVER_TARGET = os.path.join(WORK, "driver")
DRIVER = os.path.join(DRIVER_TARGET, "release", "plonk-absint")
CHECK_TARGET = os.path.join(WORK, "check")
RUSTFLAGS = ("-Awarnings -Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no "
             "-Zmir-enable-passes=-CheckAlignment,-CheckNull -Cdebug-assertions=off -Coverflow-checks=on")


def properties():
    with open(os.path.join(HERE, "checks.json")) as f:
        return json.load(f)


def clean_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def newest(root):
    t = 0
    for d, _, fs in os.walk(root):
        if "/target" in d:
            continue
        for f in fs:
            t = max(t, os.stat(os.path.join(d, f)).st_mtime)
    return t


def build_driver():
    src = os.path.join(HERE, "analyzer")
    if os.path.exists(DRIVER) and os.stat(DRIVER).st_mtime >= newest(src):
        return
    e = clean_env()
    e.update(CARGO_TARGET_DIR=DRIVER_TARGET, RUSTFLAGS="-Awarnings")
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=src, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-4000:])
        print("ERROR: building the analyser failed")
        sys.exit(2)
    os.utime(DRIVER)


def analyse(rules, outdir):
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=clean_env(), cwd="/",
                             stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
    fp = os.path.join(CHECK_TARGET, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith(("plonky-", "plookup-")):
                shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    e = clean_env()
    e.update(LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), RUSTUP_TOOLCHAIN="1.70.0",
             RUSTC=os.path.join(sysroot, "bin", "rustc"), RUSTC_WORKSPACE_WRAPPER=DRIVER,
             CARGO_TARGET_DIR=CHECK_TARGET, RUSTFLAGS=RUSTFLAGS, RUST_MIN_STACK="2000000000",
             PLONKY_PROPS=",".join(rules), PLONKY_OUT=outdir, CARGO_INCREMENTAL="0")
    r = subprocess.run(["cargo", "check", "--workspace", "--lib", "--offline"], cwd=REPO, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r


def known():
    k = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                head, what = line[7:].split(" :: ", 1)
                pid, key = head.split(" key=", 1)
                k[(pid.replace("property=", "").strip(), key.strip())] = what.strip()
    return k


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_driver()
    if a.setup:
        out = os.path.join(WORK, "out-setup")
        os.makedirs(out, exist_ok=True)
        r = analyse(["none"], out)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-4000:])
            sys.exit(2)
        return 0
    spec = properties()[a.property]
    rules = spec["rules"] + (spec.get("thorough_rules", []) if a.tier == "thorough" else [])
    out = os.path.join(WORK, "out-" + a.property)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    r = analyse(rules, out)
    obs, cov, calls, seen = [], set(), 0, []
    for krate in ("plonky", "plookup"):
        p = os.path.join(out, krate + ".jsonl")
        if not os.path.exists(p):
            continue
        seen.append(krate)
        for line in open(p):
            o = json.loads(line)
            if "coverage" in o:
                cov.update(o["coverage"])
                calls += o["calls"]
            else:
                obs.append(o)
    lock.close()
    need = {"plonky"} | ({"plookup"} if spec.get("plookup") else set())
    if r.returncode != 0 or not need <= set(seen):
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: the analysis did not run to completion on %s (does it compile?)" % REPO)
        return 2
    kn = known()
    c = collections.Counter(o["status"] for o in obs)
    viol, found = [], []
    for o in obs:
        if o["status"] == "violation":
            (found if (a.property, o["key"]) in kn else viol).append(o)
    und = [o for o in obs if o["status"] == "undecided"]
    per_rule = collections.Counter((o["rule"]) for o in obs if o["status"] != "undecided")
    sites = sorted({o["site"] for o in obs if o["site"]})
    ok_samples = {}
    for o in obs:
        if o["status"] == "ok":
            ok_samples.setdefault(o["rule"], o["key"])
    vpath = os.path.join(HERE, "evidence", a.property + ".violations.json")
    with open(vpath, "w") as f:
        json.dump(viol, f, indent=1)
    with open(os.path.join(HERE, "evidence", a.property + ".json"), "w") as f:
        json.dump({
            "property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "other",
            "coverage": {
                "explanation": spec["explanation"],
                "obligations": len(obs), "discharged": c["ok"], "undecided": len(und),
                "known_findings": len(found),
                "obligations_per_rule": dict(per_rule),
                "functions_interpreted": len(cov), "calls_interpreted": calls,
                "functions": sorted(cov)[:400], "sites": sites[:400],
                "samples": [{"rule": k, "obligation": v} for k, v in list(ok_samples.items())[:12]],
                "undecided_obligations": [{"key": o["key"], "why": o["detail"]} for o in und[:50]],
                "analysed_crates": seen,
                "deterministic": True,
            },
            "assumptions": spec.get("assumptions", []),
            "violations": len(viol), "wall_s": round(time.time() - t0, 2),
        }, f, indent=1)
    print("property %s: %d obligations, %d discharged, %d violated, %d known, %d undecided; %d functions analysed"
          % (a.property, len(obs), c["ok"], len(viol), len(found), len(und), len(cov)))
    for o in und[:20]:
        print("UNDECIDED %s: %s" % (o["key"], o["detail"][:300]))
    for o in found:
        print("KNOWN-FINDING: property=%s %s: %s" % (a.property, o["key"], kn[(a.property, o["key"])]))
    for o in viol[:20]:
        print("  %s\n    at   %s\n    rule %s\n    why  %s" % (o["key"], o["site"], o["rule"], o["detail"][:600]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (a.property, vpath))
        return 1
    if c["ok"] == 0:
        print("ERROR: nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
