#!/usr/bin/env python3
"""Create /verif/seeded/<id> from a python description file.

usage: mkseed.py FILE...   each FILE defines SEEDS = [dict(id=, prop=, file=, old=, new=, needs=, breaks=, demo=, features=)]
`edits` may be used instead of file/old/new: [(file, old, new), ...]. The patch is made on a scratch copy of /repo.
"""
import difflib, json, os, sys, runpy

DEMO_SH = """#!/bin/bash
# Demonstration: builds a small program against the object crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=/tmp/object-demo-{id}
mkdir -p "$w/src" || exit 99
export HOME="${{HOME:-/root}}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR RUSTFLAGS
cat > "$w/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
object = {{ path = "$repo", default-features = false, features = [{features}] }}
{extra}
[workspace]
[profile.dev]
debug = false
E
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cp "$here/demo.rs" "$w/src/main.rs"
cd "$w" || exit 99
timeout 280 cargo run -q --offline
rc=$?
cd /
rm -rf /tmp/object-demo-{id}
exit $rc
"""

for f in sys.argv[1:]:
    for s in runpy.run_path(f)["SEEDS"]:
        if "demo" not in s:
            continue
        d = f"/verif/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        byfile = {}
        for fn, old, new in edits:
            txt = byfile.get(fn) or open(f"/repo/{fn}").read()
            if txt.count(old) != 1:
                sys.exit(f"{s['id']}: {fn}: pattern occurs {txt.count(old)} times")
            byfile[fn] = txt.replace(old, new)
        patch = ""
        for fn, txt in byfile.items():
            a = open(f"/repo/{fn}").read().splitlines(True)
            b = txt.splitlines(True)
            patch += "".join(difflib.unified_diff(a, b, f"a/{fn}", f"b/{fn}"))
        open(f"{d}/patch.diff", "w").write(patch)
        feats = s.get("features", ["read", "write", "build", "std", "names", "unstable"])
        extra = s.get("extra", "").replace("@REPO@", "$repo")
        open(f"{d}/demo.sh", "w").write(DEMO_SH.format(id=s["id"], features=", ".join(f'"{x}"' for x in feats), extra=extra))
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print("wrote", d)
