#!/usr/bin/env python3
"""Confirms planted bugs. Usage: plant.py SPEC.py [ID...]

SPEC.py defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<main.rs body>)].
For each one: a scratch copy of /repo gets the edits, must build, pass the stable tests, and the demo
must pass without and fail with the change. Confirmed bugs are written to /verif/seeded/<id>/.
"""
import json, os, re, shutil, subprocess, sys
W = "/tmp/plantwork"
DEMO = '''#!/bin/bash
# Exit 0: the behaviour holds, 1: it is broken. Builds a small program against the crate in $PWD.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 3
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
kserd = { path = "$repo" }
serde = "1"
serde_derive = "1"
[workspace]
EOT
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build -q --offline > "$d/log" 2>&1 || { tail -30 "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def not_original(cwd):
    """Lines the diff removes which do not come from the pinned commit."""
    root = sh("git rev-list --max-parents=0 HEAD", cwd=cwd).stdout.split()[-1]
    bad = []
    f = None
    for l in sh("git diff -U0", cwd=cwd).stdout.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0: continue
            for x in sh(f"git blame -s -l -L {a},+{n} HEAD -- {f}", cwd=cwd).stdout.splitlines():
                if not x.startswith("^"): bad.append(x[41:])
    return bad
def tests(cwd):
    o = sh(". /opt/vp/env.sh; cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=cwd).stdout
    bad = re.findall(r"^test (.*) \.\.\. FAILED", o, re.M)
    n = len(re.findall(r"^test .* \.\.\. ok", o, re.M))
    comp = "could not compile" in o
    return n, bad, comp, o
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = sys.argv[2:]
if os.path.exists(W): shutil.rmtree(W)
shutil.copytree("/repo", W, symlinks=True)
base = json.load(open("/opt/vp/BASELINE.json"))
for b in spec["BUGS"]:
    if only and b["id"] not in only: continue
    d = f"/verif/seeded/{b['id']}"
    sh("git checkout -- .", cwd=W)
    ok = True
    for f, old, new in b["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        n = s.count(old)
        if n != 1: print(b["id"], "edit matches", n, "times in", f); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    no = not_original(W)
    if no: print(b["id"], "note: changes lines that are not original:", no)
    n, bad, comp, o = tests(W)
    if comp or bad:
        print(b["id"], "REJECTED:", "does not compile\n" + o[-1500:] if comp else "tests fail " + str(bad)); continue
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
    open(d + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r1 = sh(f"bash {d}/demo.sh", cwd=W)
    sh("git checkout -- .", cwd=W)
    r0 = sh(f"bash {d}/demo.sh", cwd=W)
    if r0.returncode != 0 or r1.returncode in (0, 3):
        print(b["id"], "DEMO WRONG: unchanged", r0.returncode, r0.stdout[-800:], "changed", r1.returncode, r1.stdout[-800:])
        shutil.rmtree(d); continue
    print(b["id"], b["prop"], "confirmed:", n, "tests pass; demo:", r1.stdout.strip().splitlines()[-1:] , flush=True)
shutil.rmtree(W)
