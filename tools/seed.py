#!/usr/bin/env python3
"""tools/seed.py SPEC.py : writes /verif/seeded/<id>/ from a spec defining id, prop, subs=[(file,old,new)], needs, breaks, demo (rust main.rs).
Works in a scratch worktree of /repo; /repo itself is not touched."""
import sys, os, subprocess, json, shutil, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['specs']:
    id = s['id']; out = f"/verif/seeded/{id}"
    t = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
    try:
        for f, old, new in s['subs']:
            p = f"{t}/w/{f}"; x = open(p).read()
            if x.count(old) != 1: sys.exit(f"{id}: {f}: {x.count(old)} matches of {old!r}")
            open(p, "w").write(x.replace(old, new))
        d = subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"]); shutil.rmtree(t)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out + "/demo/src")
    open(out + "/patch.diff", "w").write(d)
    json.dump({"property": s['prop'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo/src/main.rs", "w").write(s['demo'])
    open(out + "/demo/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nhexodsp = { path = "/repo" }\n' + s.get('deps', ''))
    open(out + "/demo.sh", "w").write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp -r "$d/demo" "$t/demo"
cp /repo/Cargo.lock "$t/demo/Cargo.lock" 2>/dev/null
cd "$t/demo" || exit 9
# the same settings as the repository's build, so that its built dependencies are used again
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-A dangerous_implicit_autorefs" CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
target=/repo/target
[ -d "$target/debug/deps" ] || target=$t/target
export CARGO_TARGET_DIR=$target
cargo build --offline -q 2>"$t/err" || { tail -20 "$t/err"; exit 9; }
timeout 120 "$target/debug/demo"
''')
    os.chmod(out + "/demo.sh", 0o755)
    print("wrote", out)
