#!/usr/bin/env python3
"""Try many planted changes quickly on a scratch copy (outside /repo and /verif).
usage: mut.py SPEC.py [id-prefix]   SPEC: muts=[(id, "C01 C02", [(file, old, new), ...]), ...]
Prints per change which checks caught it. Scratch: /tmp/mutw/{repo,verif}."""
import sys, os, subprocess, runpy
W = "/tmp/mutw"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prepare():
    os.makedirs(W, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {W}/repo/ || (rm -rf {W}/repo && mkdir {W}/repo && cd /repo && git archive HEAD | tar x -C {W}/repo)")
    sh(f"mkdir -p {W}/verif && cd /verif && tar c --exclude=harness/target --exclude=target --exclude=.git --exclude=seeded . | tar x -C {W}/verif")
    sh(f"sed -i 's#\"/repo\"#\"{W}/repo\"#' {W}/verif/harness/Cargo.toml; sed -i 's#/verif#{W}/verif#g' {W}/verif/run.sh {W}/verif/env.sh; sed -i 's#cd /repo#cd {W}/repo#' {W}/verif/run.sh")
    if not os.path.isdir(f"{W}/verif/target"): sh(f"cp -a /verif/target {W}/verif/target; rm -f {W}/verif/target/.repo-sum")
def restore(files):
    for f in files: sh(f"cp /repo/{f} {W}/repo/{f}")
prepare()
muts = runpy.run_path(sys.argv[1])["muts"]
pre = sys.argv[2:] 
for id, props, subs in muts:
    if pre and not any(id.startswith(p) for p in pre): continue
    files = {f for f, _, _ in subs}
    bad = None
    for f, old, new in subs:
        s = open(f"{W}/repo/{f}").read()
        if s.count(old) < 1: bad = f"text not found in {f}: {old[:60]!r}"; break
        if s.count(old) > 1: bad = f"text not unique in {f}: {old[:60]!r} x{s.count(old)}"; break
        open(f"{W}/repo/{f}", "w").write(s.replace(old, new))
    if bad: print(id, "SPEC:", bad, flush=True); restore(files); continue
    res = []
    for p in props.split():
        r = sh(f"HX_VERIF={W}/verif timeout 900 bash {W}/verif/run.sh {p} quick", cwd=W)
        if r.returncode == 3: res.append(f"{p}:BUILD"); print(r.stdout[-1500:]); break
        first = [l for l in r.stdout.splitlines() if l.startswith("first violation") or "FATAL" in l or "VIOLATION" in l]
        res.append(f"{p}:{'CAUGHT' if r.returncode == 1 else 'missed rc=%d' % r.returncode} {first[0][:150] if first else ''}")
        if r.returncode == 1: break
    print(id, " | ".join(res), flush=True)
    restore(files)
