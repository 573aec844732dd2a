#!/usr/bin/env python3
"""Validate planted bugs on scratch copies and run the checks against them.

    seedcheck.py [--no-test] [--no-check] [--jobs N] [--tier quick|thorough] ID...|all

For each bug: copy /repo, apply the patch, build + run the stable tests, run demo.sh on
the clean and on the patched tree, then run the property's check built against the copy.
Works in /tmp/seedwork (removed for each bug when done); nothing in /repo is touched.
"""
import json, os, shutil, subprocess, sys, concurrent.futures, re

V = "/verif"
W = "/tmp/seedwork"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
SKIP = re.findall(r"^    (\S+)$", open("/opt/vp/test.sh").read().split("skip=(")[1].split(")")[0], re.M)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), env=env, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


FEAT = {"r01": "wasm,compression", "r02": "wasm,compression", "r04": "wasm,compression", "r05": "wasm,compression",
        "r06": "wasm,compression", "r07": "compression", "w01": "wasm", "b04": "rewrite", "b05": "cli"}


def one(sid, do_test, do_check, tier):
    d = f"{V}/seeded/{sid}"
    meta = json.load(open(f"{d}/meta.json"))
    prop = meta["property"]
    base = f"{W}/{sid}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = f"{base}/repo"
    res = {"id": sid, "prop": prop}
    try:
        # the copy needs target/ only for test speed
        sh(["cp", "-a", "/repo", repo], "/")
        rc, out = sh(["git", "checkout", "--", "."], repo)
        demo_dir = f"{base}/demo"
        os.makedirs(demo_dir)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(f"{d}/{f}", f"{demo_dir}/{f}")
        if do_test:
            rc, out = sh(["bash", f"{demo_dir}/demo.sh"], repo, 300)
            res["demo_clean"] = rc
            if rc:
                res["demo_clean_out"] = out[-1500:]
        rc, out = sh(["git", "apply", f"{d}/patch.diff"], repo)
        if rc:
            res["error"] = "patch: " + out
            return res
        if do_test:
            rc, out = sh("cargo test --workspace --features unstable-all --no-fail-fast --offline -- --test-threads 8 --exact "
                         + " ".join("--skip=" + s for s in SKIP), repo)
            open(f"{base}/log", "w").write(out)
            sh(["python3", "/opt/vp/results.py", f"{base}/out.json", f"cargo:{base}/log"], base)
            try:
                passed = set(json.load(open(f"{base}/out.json"))["passed"])
                miss = STABLE - passed
            except Exception as e:
                miss = {str(e), out[-1500:]}
            res["tests_broken"] = sorted(miss)[:5]
            rc, out = sh(["bash", f"{demo_dir}/demo.sh"], repo, 300)
            res["demo_bug"] = rc
            res["demo_bug_out"] = out.strip()[-300:]
        if do_check:
            mc = f"{base}/mc"
            shutil.copytree(f"{V}/mc", mc, ignore=shutil.ignore_patterns("target"))
            shutil.copy(f"{V}/known_findings.txt", f"{base}/known_findings.txt") if os.path.exists(f"{V}/known_findings.txt") else None
            t = open(f"{mc}/Cargo.toml").read().replace('"/repo', f'"{repo}')
            open(f"{mc}/Cargo.toml", "w").write(t)
            b = prop.lower()
            rc, out = sh(f"cargo build --release --offline --bin {b} {'--bin rewritecli' if b == 'b05' else ''} --features '{FEAT.get(b,'')}'", mc)
            if rc:
                res["check"] = "BUILD " + out[-1500:]
                return res
            env = dict(ENV, VERIF_DIR=base, VERIF_TIER=tier, VERIF_SEED="1", MC_HANG_SECS="20")
            rc, out = sh([f"{mc}/target/release/{b}"], base, 2000, env)
            v = [l for l in out.splitlines() if l.startswith(prop + "/") and "[" in l and " executions" not in l]
            ok = rc == 1 and f"VIOLATION property={prop}" in out
            res["check"] = ("CAUGHT " if ok else f"MISSED rc={rc} ") + (v[0][:220] if v else (out[-300:] if not ok else ""))
        return res
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    a = sys.argv[1:]
    do_test = "--no-test" not in a
    do_check = "--no-check" not in a
    jobs = int(a[a.index("--jobs") + 1]) if "--jobs" in a else 3
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    skipn = set()
    for o in ("--jobs", "--tier"):
        if o in a:
            skipn |= {a.index(o), a.index(o) + 1}
    ids = [x for i, x in enumerate(a) if i not in skipn and not x.startswith("--")]
    if ids == ["all"]:
        ids = sorted(os.listdir(f"{V}/seeded"))
    ids = [i for j in ids for i in (sorted(s for s in os.listdir(f"{V}/seeded") if s.startswith(j[:-1])) if j.endswith("*") else [j])]
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda s: one(s, do_test, do_check, tier), ids):
            bad = r.get("error") or r.get("tests_broken") or r.get("demo_clean") or r.get("demo_bug") == 0
            print(("BAD  " if bad else "ok   ") + r["id"], r.get("check", ""), flush=True)
            if bad:
                print("     ", json.dumps(r, indent=1)[:2500], flush=True)


main()
