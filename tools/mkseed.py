#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py and confirms each in a scratch copy of /repo:
mkseed.py [id-regex]   (the change compiles, passes the tests, and its demonstration tells it apart)
"""
import json
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds  # noqa: E402

WORK = "/tmp/vp_seedrepo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")

DEMO = '''#!/bin/bash
# Builds demo.rs against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=/tmp/vp_demo_{id}
mkdir -p "$work/src"
trap 'rm -rf /tmp/vp_demo_{id}' EXIT
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
enum_vec = {{ path = "$repo/enum_vec", features = ["smallvec"] }}
enum_like = {{ path = "$repo/enum_like" }}
enum_like_derive = {{ path = "$repo/enum_like_derive" }}
enum_set2 = {{ path = "$repo/enum_set" }}
bit-set = "0.5"
bit-vec = "0.6"
[patch.crates-io]
enum_vec = {{ path = "$repo/enum_vec" }}
enum_like = {{ path = "$repo/enum_like" }}
enum_like_derive = {{ path = "$repo/enum_like_derive" }}
enum_set2 = {{ path = "$repo/enum_set" }}
[workspace]
TOML
cd "$work" && CARGO_NET_OFFLINE=true cargo run -q --offline 2>&1
'''


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def main():
    want = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
    subprocess.run(["rm", "-rf", "/tmp/vp_seedrepo"])
    subprocess.run(["cp", "-a", "/repo", WORK], check=True)
    for s in seeds.SEEDS:
        if not want.search(s["id"]):
            continue
        sh(["git", "checkout", "-q", "--", "."], WORK)
        for f, old, new in s["edits"]:
            p = os.path.join(WORK, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "BAD EDIT", f, t.count(old), repr(old[:60]))
                break
            open(p, "w").write(t.replace(old, new))
        else:
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(["git", "diff"], cwd=WORK, stdout=subprocess.PIPE).stdout
            open(os.path.join(d, "patch.diff"), "wb").write(diff)
            open(os.path.join(d, "demo.rs"), "w").write(s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.format(id=s["id"]))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            rc, out = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline", "-q"], WORK)
            fails = re.findall(r"^test (.*) \.\.\. FAILED|^    (\S.*)$", out, re.M) if rc else []
            drc, dout = sh(["bash", os.path.join(d, "demo.sh")], WORK, 300)
            sh(["git", "checkout", "-q", "--", "."], WORK)
            crc, cout = sh(["bash", os.path.join(d, "demo.sh")], WORK, 300)
            ok = rc == 0 and drc != 0 and crc == 0
            print(s["id"], s["prop"], "OK" if ok else "REJECT", f"tests rc={rc} demo patched={drc} clean={crc}")
            if rc:
                print("   ", [x[0] or x[1] for x in fails][:6], "" if fails else out[-600:])
            if crc:
                print(cout[-800:])
            print("    patched demo says:", [l for l in dout.splitlines() if l.strip()][:2] and
                  " | ".join([l for l in dout.splitlines() if l.strip() and not l.startswith("warning")][-3:])[:200])
            if not ok:
                shutil.rmtree(d)
    subprocess.run(["rm", "-rf", "/tmp/vp_seedrepo"])


main()
