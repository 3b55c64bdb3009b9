#!/usr/bin/env python3
"""Systematic one-line mutants of /repo's sources (outside the test modules), to look for changes
that compile, pass the existing tests and escape every check. Works in scratch copies under /tmp.
Usage: mutate.py RESULT.jsonl [workers] [sample-fraction]"""
import json, os, re, subprocess, sys, shutil, random
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]; workers = int(sys.argv[2]) if len(sys.argv) > 2 else 3
frac = float(sys.argv[3]) if len(sys.argv) > 3 else 1.0
SRC = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "src"], text=True).split() if f.endswith(".rs")]

RULES = [
 (r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r" < ", " <= "), (r" < ", " > "), (r">=", ">"), (r" >= ", " == "), (r" > ", " >= "),
 (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r"\+1\b", ""), (r"% 2 == 1", "% 2 == 0"), (r"% 2 == 0", "% 2 == 1"), (r"- 1\b", "- 2"),
 (r"!(\w)", r"\1"), (r"\bcontinue\b", "break"), (r"\bbreak;", "continue;"),
 (r"rotate_right", "rotate_left"), (r"rotate_left", "rotate_right"), (r"push_front", "push_back"), (r"push_back", "push_front"), (r"pop_back", "pop_front"),
 (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\[0\]", "[1]"), (r"\.last\(\)", ".first()"), (r"\.first\(\)", ".last()"),
 (r"\bsid\b", "tid"), (r"\btid\b", "sid"), (r"\bparent\b", "node"), (r"\bnode\b", "parent"), (r"\bneighbor\b", "node"), (r"\bleft\b", "right"), (r"\bright\b", "left"),
 (r"\bpath_v\b", "path_w"), (r"\bpath_w\b", "path_v"), (r"\bv\b", "w"), (r"\bw\b", "v"), (r"Even", "Odd"), (r"Odd", "Even"),
 (r"edge\.0", "edge.1"), (r"edge\.1", "edge.0"), (r"pair\.0", "pair.1"), (r"\bself\.order\(\)", "other.order()"), (r"\bsource_index\b", "target_index"), (r"\btarget_index\b", "source_index"),
 (r"\bpairing\b", "&Pairing::new()"), (r"\bcopy\b", "left"), (r"\bforward\b", "reverse"), (r"\breverse\b", "forward"), (r"\.reverse\(\)", ".sort()"),
 (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.nodes\(\)", ".nodes().skip(1)"), (r"\.edges\(\)", ".edges().skip(1)"),
 (r"\.contains\(", ".starts_with(&["),
]

def mutants():
    for f in SRC:
        lines = open("/repo/" + f).read().split("\n")
        for i, line in enumerate(lines):
            if "#[cfg(test)]" in line: break
            t = line.strip()
            if not t or t.startswith("//") or t.startswith("use ") or t.startswith("#") or t.startswith("mod ") or t.startswith("pub use"): continue
            seen = set()
            for pat, rep in RULES:
                for m in re.finditer(pat, line):
                    new = line[:m.start()] + m.expand(rep) + line[m.end():]
                    if new != line and new not in seen:
                        seen.add(new); yield f, i, new
            if t.endswith(";") and not t.startswith("let ") and not t.startswith("return"):
                yield f, i, ""                       # statement deleted
                yield f, i, line + "\n" + line        # statement doubled
            if t.startswith("return"):
                yield f, i, ""
            if re.match(r"(\} else )?if .*\{$", t):
                c = re.search(r"if (.*) \{$", line)
                if c and "let " not in c.group(1):
                    yield f, i, line[:c.start(1)] + "true" + line[c.end(1):]
                    yield f, i, line[:c.start(1)] + "false" + line[c.end(1):]

def run(cmd, cwd, env, t):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def slot_dir(k):
    w = f"/tmp/mut/{k}"
    os.makedirs(w + "/verif/out", exist_ok=True)
    subprocess.run(f"mkdir -p {w}/repo && git -C /repo archive HEAD | tar -x -C {w}/repo && cp -r {here}/harness {w}/verif/", shell=True, check=True)
    c = open(w + "/verif/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{w}/repo"')
    open(w + "/verif/harness/Cargo.toml", "w").write(c)
    return w

import queue
slots = queue.Queue()
def work(m):
    f, i, new = m
    w = slots.get()
    try:
        p = f"{w}/repo/{f}"
        orig = open("/repo/" + f).read()
        lines = orig.split("\n"); old = lines[i]; lines[i] = new
        open(p, "w").write("\n".join(lines))
        env = dict(os.environ, CARGO_TARGET_DIR=w + "/t", CARGO_NET_OFFLINE="true", VERIF_DIR=w + "/verif", VERIF_CASES=os.environ.get("VERIF_CASES", "0.15"), VERIF_SEED="1")
        r = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
        rc, o = run(["bash", "-c", "ulimit -v 8000000; cargo test --offline -q 2>&1"], w + "/repo", env, 60)
        if rc != 0:
            r["tests"] = "compile" if "could not compile" in o else "fail"
        else:
            r["tests"] = "pass"
            env["CARGO_TARGET_DIR"] = w + "/th"
            rc, o = run(["cargo", "build", "--offline", "--release"], w + "/verif/harness", env, 200)
            r["caught"] = []; r["errors"] = []
            for k in range(1, 25):
                id = f"C{k:02d}"
                rc, o = run([w + "/th/release/harness", "check", id], w, env, 500)
                if rc == 1 and f"VIOLATION property={id}" in o: r["caught"].append(id)
                elif rc != 0: r["errors"].append([id, rc, o[-300:]])
        open(p, "w").write(orig)
        with open(out, "a") as h: h.write(json.dumps(r) + "\n")
    finally:
        slots.put(w)

all_m = list(mutants())
if frac < 1: random.Random(1).shuffle(all_m); all_m = all_m[: int(len(all_m) * frac)]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
all_m = [m for m in all_m if (m[0], m[1] + 1, m[2].strip()) not in done]
print(len(all_m), "mutants")
for k in range(workers): slots.put(slot_dir(k))
with ThreadPoolExecutor(workers) as ex: list(ex.map(work, all_m))
shutil.rmtree("/tmp/mut")
