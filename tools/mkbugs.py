#!/usr/bin/env python3
"""mkbugs.py DEFS.py [ID..]: makes /verif/seeded/<id>/ from definitions and confirms each in a scratch copy of /repo:
it builds, passes the stable tests, its demo exits 0 without and nonzero with the patch.
DEFS.py defines BUGS: list of dict(id, property, edits=[(file, old, new)], demo=<main.rs body>, needs, breaks)."""
import json, os, subprocess, sys, shutil, runpy
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds for this case
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS="-A float_literal_f32_fallback"
d=$(mktemp -d /tmp/bvhdemo.XXXXXX) || exit 3
trap 'rm -rf "${d:?}"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bvh_anim = { path = "$repo" }
bstr = "0.2"
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
CARGO_TARGET_DIR=$d/target cargo build --offline -q --manifest-path "$d/Cargo.toml" || exit 4
timeout 60 "$d/target/debug/demo"
'''
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    base = json.load(open("/opt/vp/BASELINE.json"))
    scratch = "/tmp/bugscratch"
    for b in bugs:
        if only and b["id"] not in only: continue
        shutil.rmtree(scratch, ignore_errors=True)
        sh("cp -a /repo " + scratch)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(scratch, f); s = open(p).read()
            if s.count(old) != 1: print(b["id"], "edit matches", s.count(old), "times:", old[:80]); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        d = os.path.join(R, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        rc, diff = sh("git diff", scratch)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        # tests, as test.sh does, on the scratch copy
        env = "HOME=/root CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS='-A float_literal_f32_fallback'" % scratch
        rc, out = sh(env + " cargo test --workspace --no-fail-fast --offline -- --test-threads 8", scratch)
        bad = [l for l in out.split("\n") if " ... FAILED" in l] + ([l for l in out.split("\n") if l.startswith("error")] if rc else [])
        r1, o1 = sh("bash %s/demo.sh" % d, "/repo")
        r2, o2 = sh("bash %s/demo.sh" % d, scratch)
        good = not bad and r1 == 0 and r2 not in (0, 3, 4)
        print("%-28s %s  tests:%s demo clean:%d patched:%d %s" % (b["id"], "OK " if good else "BAD", "pass" if not bad else bad[:3], r1, r2, o2.strip().split("\n")[-1][:150] if good else (o1[-600:] + o2[-800:])))
    shutil.rmtree(scratch, ignore_errors=True)
main()
