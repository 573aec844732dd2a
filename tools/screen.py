#!/usr/bin/env python3
"""Run the checks against planted edits quickly (no tests, no demos).

    screen.py [--jobs N] FILE[:ID,ID...]...

Each FILE defines SEEDS as for mkseed.py. Works in /tmp/screen/wN: a copy of /repo and of mc with a
warm target directory each.
"""
import os, runpy, subprocess, sys, threading, queue, shutil, time, re

V, W = "/verif", "/tmp/screen"
FEAT = {"r01": "wasm,compression", "r02": "wasm,compression", "r04": "wasm,compression", "r05": "wasm,compression",
        "r06": "wasm,compression", "r07": "compression", "w01": "wasm", "b04": "rewrite", "b05": "cli"}
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           CARGO_INCREMENTAL="0")


def sh(cmd, cwd="/", timeout=1200, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


jobs = 2
args = sys.argv[1:]
if args and args[0] == "--jobs":
    jobs = int(args[1]); args = args[2:]
q = queue.Queue()
for a in args:
    f, _, ids = a.partition(":")
    for s in runpy.run_path(f)["SEEDS"]:
        if not ids or s["id"] in ids.split(","):
            q.put(s)
lock = threading.Lock()


def work(n):
    base = f"{W}/w{n}"
    os.makedirs(base, exist_ok=True)
    sh(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", f"{base}/repo/"])
    sh(["rsync", "-a", "--delete", "--exclude", "target", f"{V}/mc/", f"{base}/mc/"])
    shutil.copy(f"{V}/known_findings.txt", base)
    t = open(f"{base}/mc/Cargo.toml").read().replace('"/repo', f'"{base}/repo')
    open(f"{base}/mc/Cargo.toml", "w").write(t)
    while True:
        try:
            s = q.get_nowait()
        except queue.Empty:
            return
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        saved = {}
        err = None
        for fn, old, new in edits:
            p = f"{base}/repo/{fn}"
            txt = open(p).read()
            saved.setdefault(p, txt)
            if txt.count(old) != 1:
                err = f"{fn}: pattern occurs {txt.count(old)} times"
                break
            open(p, "w").write(txt.replace(old, new))
        res = []
        if not err:
            for prop in [s["prop"]] + s.get("also", []):
                b = prop.lower()
                t0 = time.time()
                rc, out = sh(["cargo", "build", "--release", "--offline", "--bin", b, *(["--bin", "rewritecli"] if b == "b05" else []), "--features", FEAT.get(b, "")], f"{base}/mc")
                if rc:
                    err = "BUILD " + out[-1500:]
                    break
                env = dict(ENV, VERIF_DIR=base, VERIF_TIER="quick", VERIF_SEED="1", MC_HANG_SECS="20")
                rc, out = sh([f"{base}/mc/target/release/{b}"], base, 900, env)
                v = [l for l in out.splitlines() if l.startswith(prop + "/") and "[" in l and " executions" not in l]
                ok = rc == 1 and f"VIOLATION property={prop}" in out
                res.append(f"{prop} " + ("CAUGHT " if ok else f"MISSED rc={rc} ") + (v[0][:160] if v else (out[-200:] if rc not in (0, 1) else "")) + f" {time.time()-t0:.0f}s")
                if ok:
                    break
        for p, txt in saved.items():
            open(p, "w").write(txt)
        with lock:
            print(f"{s['id']}: {err or ' | '.join(res)}", flush=True)


ts = [threading.Thread(target=work, args=(i,)) for i in range(jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
