#!/usr/bin/env python3
"""Turns a description of a planted bug into seeded/<id>/ after confirming it in scratch copies:
it applies, builds, passes the tests, and its demonstration fails with it and passes without it.
Usage: plant.py FILE.py [ID...]; FILE.py defines BUGS = [dict(id, property, needs, breaks, edits, demo)],
edits = [(file, old, new)] with each old text occurring once in the non-test part of the file."""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = set(sys.argv[2:])
DEMO = '''#!/bin/bash
# Run in the repository after its build. Exit 0: behaves; otherwise the planted bug shows.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 3
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
gamma = { path = "$repo" }
END
cd "$w" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/target" cargo build -q --offline || exit 3
ulimit -c 0
timeout 100 "$w/target/debug/demo"
'''
def sh(cmd, cwd, t=300, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
for b in ns["BUGS"]:
    if only and b["id"] not in only: continue
    w = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        sh(f"mkdir repo && git -C /repo archive HEAD | tar -x -C repo && cd repo && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", w)
        r = w + "/repo"
        d = f"{w}/seed"; os.mkdir(d)
        open(d + "/demo.rs", "w").write(b["demo"]); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=w + "/t")
        rc, o = sh(f"bash {d}/demo.sh", r)
        if rc != 0: print(b["id"], "REJECT: demo fails on the unchanged tree:", o[-600:]); continue
        bad = False
        for f, old, new in b["edits"]:
            s = open(f"{r}/{f}").read(); k = s.find("#[cfg(test)]"); head, tail = (s, "") if k < 0 else (s[:k], s[k:])
            if head.count(old) != 1: print(b["id"], "REJECT: text occurs", head.count(old), "times:", old[:60]); bad = True; break
            open(f"{r}/{f}", "w").write(head.replace(old, new) + tail)
        if bad: continue
        rc, o = sh("cargo test --offline -q", r, env=env)
        if rc != 0:
            why = [l for l in o.splitlines() if "FAILED" in l or l.startswith("error") or "failed" in l][:4]
            print(b["id"], "REJECT: tests:", why, o[-500:] if "error" in o else ""); continue
        rc, o = sh(f"bash {d}/demo.sh", r)
        if rc in (0, 3): print(b["id"], "REJECT: demo exits", rc, "with the bug", o[-500:]); continue
        diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
        dst = f"{here}/seeded/{b['id']}"
        os.makedirs(dst, exist_ok=True)
        for f in ("demo.rs", "demo.sh"): shutil.copy(f"{d}/{f}", dst)
        open(dst + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        print(b["id"], "kept; demo:", o.strip().splitlines()[:2])
    finally:
        shutil.rmtree(w)
