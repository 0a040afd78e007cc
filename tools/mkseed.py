#!/usr/bin/env python3
"""mkseed.py FILE.py: writes /verif/seeded/<id>/ from the S list in FILE.py (development only)"""
import json, os, subprocess, sys, shutil, tempfile
V = "/verif"
RUST = r'''#!/bin/bash
# builds demo.rs against the crates of the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/run"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dess = { path = "$repo/dess" }
dess-examples = { path = "$repo/dess-examples" }
serde = { version = "1", features = ["derive"] }
anyhow = "1"
[features]
pyo3 = []
EOT
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR=$w/target
cd "$w" && cargo build --offline -q 2> build.log || { cat build.log; exit @BF@; }
cd "$w/run" && timeout 120 "$w/target/debug/demo"
'''
PY = r'''#!/bin/bash
# loads the Python module built in the current directory and runs demo.py against it
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
cp "$PWD/target/debug/libdess_pyo3.so" "$w/dess_pyo3.so" || exit 3
cd "$w" && PYTHONPATH=$w PYTHONDONTWRITEBYTECODE=1 timeout 120 /usr/bin/python3.12 "$here/demo.py"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["S"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
    for f, old, new in s["edits"]:
        p = w + "/r/" + f
        t = open(p).read()
        assert t.count(old) >= 1, (s["id"], f, old)
        n = s.get("nth", {}).get(f)
        if n is None:
            assert t.count(old) == 1, (s["id"], f, "ambiguous", t.count(old))
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(t)
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    if "rs" in s:
        open(d + "/demo.rs", "w").write(s["rs"])
        open(d + "/demo.sh", "w").write(RUST.replace("@BF@", str(s.get("buildfail", 3))))
    else:
        open(d + "/demo.py", "w").write(s["py"])
        open(d + "/demo.sh", "w").write(PY)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(w)
    print(s["id"])
