#!/usr/bin/env python3
"""Helper to write seeded/<id>/: takes a python module with ID, PROPERTY, NEEDS, BREAKS, CRATES, EDITS, DEMO."""
import json, os, subprocess, sys

DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is right; anything else: it is broken (run in the repository)
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
[ -f /opt/vp/env.sh ] && source /opt/vp/env.sh
rm -rf /tmp/vp_demo_@ID@
mkdir -p /tmp/vp_demo_@ID@/src
cp "$HERE/demo.rs" /tmp/vp_demo_@ID@/src/main.rs
cp "$REPO/Cargo.lock" /tmp/vp_demo_@ID@/Cargo.lock 2>/dev/null
cat > /tmp/vp_demo_@ID@/Cargo.toml <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
@DEPS@
[workspace]
EOF
CARGO_TARGET_DIR=/tmp/vp_demo_@ID@/target timeout 280 cargo run --offline -q --manifest-path /tmp/vp_demo_@ID@/Cargo.toml
code=$?
rm -rf /tmp/vp_demo_@ID@
exit $code
'''

def main(path):
    ns = {}
    exec(open(path).read(), ns)
    i = ns["ID"]
    d = f"/verif/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout
    try:
        for f, old, new in ns["EDITS"]:
            p = f"/repo/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(ns["DEMO"].lstrip("\n"))
    deps = "\n".join(f'{c} = {{ path = "$REPO/{c}" }}' for c in ns["CRATES"])
    open(f"{d}/demo.sh", "w").write(DEMO_SH.replace("@ID@", i.lower().replace("-", "_")).replace("@DEPS@", deps))
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    print("wrote", d)

for p in sys.argv[1:]:
    main(p)
