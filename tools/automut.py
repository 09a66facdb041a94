#!/usr/bin/env python3
"""Mechanical mutants, on a scratch copy: for the given source files, every k-th single-token mutant is
compiled and given to the checks anchored in that file; prints the survivors.
usage: automut.py N FILE[:PROPS] ...   (N mutants per file). Scratch: $MUTW/{repo,verif} (default /tmp/mutw)"""
import sys, os, re, subprocess, json, random
W = os.environ.get("MUTW", "/tmp/mutw")
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare():
    os.makedirs(W, exist_ok=True)
    sh(f"rm -rf {W}/repo && mkdir {W}/repo && cd /repo && git archive HEAD | tar x -C {W}/repo")
    sh(f"mkdir -p {W}/verif && cd /verif && tar c --exclude=harness/target --exclude=target --exclude=.git --exclude=seeded . | tar x -C {W}/verif")
    sh(f"sed -i 's#\"/repo\"#\"{W}/repo\"#' {W}/verif/harness/Cargo.toml; sed -i 's#/verif#{W}/verif#g' {W}/verif/run.sh {W}/verif/env.sh; sed -i 's#cd /repo#cd {W}/repo#' {W}/verif/run.sh")
    if not os.path.isdir(f"{W}/verif/target"): sh(f"cp -a /verif/target {W}/verif/target; rm -f {W}/verif/target/.repo-sum")
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "),
       (r" \* ", " / "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"\b0\b(?![.x])", "1"), (r"\b1\b(?![.x])", "2"),
       (r"\b0\.0\b", "0.5"), (r"\b1\.0\b", "0.9"), (r"\bcontinue;", "{}"), (r"\bbreak;", "{}"), (r"\.\.=", ".."),
       (r"if !", "if "), (r" \+= ", " -= "), (r" % ", " / "), (r"\.ceil\(\)", ".floor()"), (r"\.insert\(0", ".insert(1")]
def mutants(src):
    lines = src.split("\n"); out = []; depth_test = False; raw = False
    for i, l in enumerate(lines):
        t = l.strip()
        if "#[cfg(test)]" in t: break
        if raw:
            if '"#' in t: raw = False
            continue
        if 'r#"' in t and '"#' not in t.split('r#"', 1)[1]: raw = True; continue
        if not t or t.startswith("//") or t.startswith("use ") or t.startswith("#[") or "pub const" in t or "println" in t or "write!" in t or "panic!" in t: continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), l)
        code = re.sub(r"//.*", lambda m: "\0" * len(m.group(0)), code)
        for a, b in OPS:
            for m in re.finditer(a, code):
                out.append((i, l[:m.start()] + b + l[m.end():]))
        if re.match(r"^(self|[a-z_]+)[.\w\[\]()*]*(\.\w+\(.*\)| [-+*/]?= .*);$", t) and not t.startswith("let ") and not t.startswith("return"):
            out.append((i, ""))
    return lines, out
prepare()
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
def anchors(p): return json.dumps(p)
n = int(sys.argv[1])
for spec in sys.argv[2:]:
    f, _, pr = spec.partition(":")
    plist = pr.split(",") if pr else [p["id"] for p in props if f in anchors(p)]
    src = open(f"{W}/repo/{f}").read()
    lines, ms = mutants(src)
    random.Random(f + os.environ.get("MSEED", "1")).shuffle(ms)
    caught = surv = nb = 0
    for i, new in ms:
        if caught + surv >= n: break
        x = list(lines); x[i] = new
        open(f"{W}/repo/{f}", "w").write("\n".join(x))
        b = False
        by = None
        for p in plist:
            r = sh(f"HX_VERIF={W}/verif timeout 900 bash {W}/verif/run.sh {p} quick", cwd=W)
            if r.returncode == 1: by = p; break
            if r.returncode != 0:
                b = ("error" in r.stdout and "could not compile" in r.stdout) or r.returncode == 3
                by = None if b else f"{p} rc={r.returncode}"
                break
        if b: nb += 1
        elif by: caught += 1; print(f"caught {by} {f}:{i+1}", flush=True)
        else: surv += 1; print(f"SURVIVED {f}:{i+1} [{' '.join(plist)}]\n  - {lines[i].strip()}\n  + {new.strip()}", flush=True)
    open(f"{W}/repo/{f}", "w").write(src)
    print(f"== {f}: caught {caught}, survived {surv}, not compiling {nb}", flush=True)
