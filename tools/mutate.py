#!/usr/bin/env python3
"""Measures the checks with small source mutations (a development tool, no check uses it).

  mutate.py gen OUT.jsonl              list the mutants of /repo/src (non-test code)
  mutate.py test IN.jsonl OUT.jsonl N  which of them compile and pass the existing tests (N workers)
  mutate.py check IN.jsonl OUT.jsonl N run the checks on the survivors, stop at the first that fails

Works on scratch copies under /tmp/mut, never on /repo.
"""
import json, os, re, shutil, subprocess, sys, threading, queue
SRC = "/repo/src"
W = "/tmp/mut"
SUB = [  # (pattern, replacements)
 (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_ok\(\)", [".is_err()"]), (r"\.is_err\(\)", [".is_ok()"]),
 (r"!(?=[a-z(])(?<![a-z]!)", [""]), (r"\.chars\(\)\.count\(\)", [".len()"]), (r"\.is_empty\(\)", [".len() == 1"]),
 (r"\bInline\b", ["Concise", "Verbose"]), (r"\bConcise\b", ["Inline", "Verbose"]), (r"\bVerbose\b", ["Inline", "Concise"]),
 (r"\bTuple\b", ["Seq"]), (r"\bSeq\b", ["Tuple"]), (r"\bMap\b", ["Cntr"]), (r"\bCntr\b", ["Map"]),
 (r"\bUint\b", ["Int"]), (r"\bInt\b", ["Uint"]),
 (r"\bkey_", ["value_"]), (r"\bvalue_", ["key_"]), (r"\bkey\b", ["value"]), (r"\bvalue\b", ["key"]),
 (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.rev\(\)", [""]), (r"\bcut\(", ["("]), (r"\bopt\(", ["map(Some, "]),
 (r"\bkserd_inline\b", ["kserd_concise"]), (r"\bkserd_concise\b", ["kserd_inline"]), (r"\binline_whitespace\b", ["multiline_whitespace"]),
 (r"\bmultiline_whitespace\b", ["inline_whitespace"]), (r"ignore_inline_whitespace\(", ["("]),
 (r"\bLess\b", ["Greater", "Equal"]), (r"\bGreater\b", ["Less", "Equal"]), (r"\bEqual\b", ["Less"]),
 (r"\bfloor\b", ["ceil", "round"]), (r"\bceil\b", ["floor"]), (r"\bround\b", ["floor", "trunc"]), (r"\babs\(\)", ["signum()"]),
 (r"as u128", ["as u64 as u128"]), (r"as i128", ["as i64 as i128"]), (r"as f64", ["as f32 as f64"]),
 (r"\bSome\(([a-z_]+)\)$", ["None"]), (r"take_while1", ["take_while"]), (r"\bis_ascii_digit\b", ["is_ascii_alphanumeric", "is_ascii_hexdigit"]),
 (r"is_ascii_alphanumeric\(\)", ["is_ascii_alphabetic()", "is_alphanumeric()"]), (r"\.saturating_sub\(", [".wrapping_add("]),
 (r"\bmax\(", ["min("]), (r"\bmin\(", ["max("]), (r"\bpop_front\b", ["pop_back"]), (r"\bpush_front\b", ["push_back"]),
 (r"force_inline\)", ["true)", "false)"]), (r"\bfmt\.id\b", ["true", "false"]), (r"\bvfmt\.id\b", ["true", "fmt.id"]), (r"print_id", ["true", "false"]),
 (r"\bor\(", ["and("]), (r"unwrap_or\(0\)", ["unwrap_or(1)"]), (r"\bcol \+ INDENT\b", ["col"]), (r"\bINDENT\b", ["2", "(INDENT - 1)"]),
 (r"\bBorrowed\b", ["Owned"]), (r"\.into_owned\(\)", [""]), (r"\?;$", [".ok();"]), (r"id_on_(\w+)", ["id_on_primitives", "id_on_tuples", "id_on_containers"]),
 (r"\bident\b(?= \+|,| //)", ["0"]), (r"\bindents\b", ["0"]), (r"indents \+ 1", ["indents", "indents + 2"]),
 (r"\bis_nan\(\)", ["is_infinite()"]), (r"\bparent\b", ["child"]), (r"\bchild\b", ["parent"]),
 (r"\.filter_map\(", [".map("]), (r"\bchain\b", ["zip"]),
]
def code_lines(path):
    out = []
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l): break
        s = l.strip()
        if s.startswith("//") or s.startswith("use ") or s.startswith("#[") or not s: continue
        out.append((i, l))
    return lines, out
def gen(out):
    n = 0
    with open(out, "w") as f:
        for d, _, fs in sorted(os.walk(SRC)):
            for name in sorted(fs):
                p = os.path.join(d, name); rel = os.path.relpath(p, "/repo")
                lines, code = code_lines(p)
                seen = set()
                def emit(i, new, op):
                    nonlocal n
                    if (i, new) in seen or new == lines[i]: return
                    seen.add((i, new)); n += 1
                    f.write(json.dumps(dict(n=n, file=rel, line=i, old=lines[i], new=new, op=op)) + "\n")
                idx = {i: l for i, l in code}
                for i, l in code:
                    body = l.split("//")[0]
                    if re.match(r"\s*(pub )?(fn|impl|struct|enum|trait|type|mod|where)\b", l): continue
                    for pat, reps in SUB:
                        for m in re.finditer(pat, body):
                            for r in reps: emit(i, l[:m.start()] + r + l[m.end():], pat)
                    for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", body):
                        v = int(m[1])
                        for r in {v + 1, max(v - 1, 0)} - {v}: emit(i, l[:m.start()] + str(r) + l[m.end():], "num")
                    for m in re.finditer(r'"((?:[^"\\]|\\.){1,24})"', body):
                        chars = re.findall(r"\\.|[^\\]", m[1])
                        for k in {0, len(chars) // 2, len(chars) - 1}:
                            emit(i, l[:m.start(1)] + "".join(chars[:k] + chars[k + 1:]) + l[m.end(1):], "str")
                    for m in re.finditer(r"'(\\?.)'", body): emit(i, l[:m.start(1)] + "$" + l[m.end(1):], "char")
                    if re.match(r"\s*[a-z_*.()&\[\]]+.*;\s*$", l) and not re.match(r"\s*(let|return|use|pub|const|break)\b", l): emit(i, re.match(r"\s*", l)[0], "del")
                    m = re.match(r"(\s*)(\}? ?(?:else )?if) (?!let )(.*) \{$", l)
                    if m:
                        emit(i, f"{m[1]}{m[2]} true || {m[3]} {{", "if true"); emit(i, f"{m[1]}{m[2]} false && ({m[3]}) {{", "if false")
                    m = re.match(r"(\s*)(.*) if (.*) => (.*)$", l)
                    if m: emit(i, f"{m[1]}{m[2]} => {m[4]}", "guard off"); emit(i, f"{m[1]}{m[2]} if false && ({m[3]}) => {m[4]}", "guard never")
                    # take the right side of the next arm
                    m = re.match(r"(\s*.*=> )(.*,)\s*$", l); m2 = re.match(r"\s*.*=> (.*,)\s*$", idx.get(i + 1, ""))
                    if m and m2: emit(i, m[1] + m2[1], "arm"); 
                    m3 = re.match(r"\s*.*=> (.*,)\s*$", idx.get(i - 1, ""))
                    if m and m3: emit(i, m[1] + m3[1], "arm")
    print(n, "mutants")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="0",
           RUSTFLAGS="-A warnings", HOME="/root")
def sh(cmd, cwd, timeout, env):
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return -1, "timeout"
# the checks most likely to notice a change of a file
FIRST = [("ds/num", "P13 P14 P15 P28"), ("ds/", "P16 P17 P18 P20 P28"), ("encode/", "P21 P23 P24 P27"), ("fmt/solver", "P05"), ("fmt/prims", "P07 P01 P05"),
         ("fmt/", "P26 P04 P03 P02 P01"), ("nav/", "P19 P26"), ("parse/err", "P08"), ("parse/", "P10 P12 P11 P08"), ("to_kserd", "P25")]
def run(inp, outp, nw, stage):
    todo = queue.Queue(); lock = threading.Lock()
    done = set()
    if os.path.exists(outp): done = {json.loads(l)["n"] for l in open(outp)}
    for l in open(inp):
        m = json.loads(l)
        if m["n"] in done: continue
        if stage == "check" and m.get("status") != "survived": continue
        todo.put(m)
    print(todo.qsize(), "to do", flush=True)
    out = open(outp, "a")
    props = open("/verif/tools/claimed.txt").read().split()
    if os.environ.get("PROPS"): props = os.environ["PROPS"].split()
    def worker(k):
        root = f"{W}/{stage}{k}"
        shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
        shutil.copytree("/repo", root + "/repo", symlinks=True, ignore=shutil.ignore_patterns("target"))
        env = dict(ENV, CARGO_TARGET_DIR=root + "/target")
        if stage == "check":
            shutil.copytree("/verif/harness", root + "/harness", ignore=shutil.ignore_patterns("target"))
            shutil.copy("/verif/known-findings.txt", root)
            t = open(root + "/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{root}/repo"')
            open(root + "/harness/Cargo.toml", "w").write(t)
            env = dict(env, KVERIF_HOME=root, KVERIF_SCALE=os.environ.get("KVERIF_SCALE", "0.3"), KVERIF_LIMIT_S="100", VERIF_SEED="1", VERIF_TIER="quick")
        while True:
            try: m = todo.get_nowait()
            except queue.Empty: break
            p = f"{root}/repo/{m['file']}"
            orig = open(p).read(); lines = orig.split("\n")
            # the file may have changed since: the nearest such line
            at = min((i for i, l in enumerate(lines) if l == m["old"]), key=lambda i: abs(i - m["line"]), default=None)
            if at is None or abs(at - m["line"]) > 60:
                m["caught"] = ["gone"]
                with lock: out.write(json.dumps(m) + "\n"); out.flush()
                continue
            lines[at] = m["new"]
            open(p, "w").write("\n".join(lines))
            try:
                if stage == "test":
                    rc, o = sh("cargo check --offline -q", root + "/repo", 120, env)
                    if rc: m["status"] = "build"
                    else:
                        rc, o = sh("ulimit -v 8000000; cargo test --offline -q --lib --tests -- --test-threads 4 && cargo test --offline -q --doc -- --test-threads 4", root + "/repo", 240, env)
                        m["status"] = "survived" if rc == 0 else "killed"
                else:
                    rc, o = sh("cargo build --release --offline", root + "/harness", 300, env)
                    m["caught"] = []
                    if rc: m["caught"] = ["build:" + o[-300:]]
                    else:
                        first = next((f.split() for q, f in FIRST if q in m["file"]), [])
                        order = first + [i for i in props if i not in first]
                        for scale in os.environ.get("SCALES", "0.01 0.3").split():
                            for i in order:
                                e2 = dict(env, KVERIF_SCALE=scale)
                                rc, o = sh(f"ulimit -v 12000000; {root}/target/release/kverif check {i}", root, 130, e2)
                                if rc == 1 and "VIOLATION" in o:
                                    m["caught"].append(i); m["scale"] = scale; break
                                if rc != 0: m.setdefault("odd", []).append(f"{i}:{rc}")
                            if m["caught"]: break
            finally:
                open(p, "w").write(orig)
            with lock:
                out.write(json.dumps(m) + "\n"); out.flush()
        shutil.rmtree(root, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
a = sys.argv[1:]
if a[0] == "gen": gen(a[1])
else: run(a[1], a[2], int(a[3]), a[0])
