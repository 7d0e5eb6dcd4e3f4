"""mkseed.py ID PROP FILE OLD NEW DEPS MAIN NEEDS BREAKS: write a planted bug from a textual replacement"""
import os
REPO = os.environ.get("REPO", "/repo")
import json, os, subprocess, sys
def mk(id, prop, edits, deps, main, needs, breaks):
    d = (os.environ.get("SEEDS") or "/verif/seeded") + "/" + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "status", "--porcelain"], cwd=REPO, capture_output=True, text=True).stdout
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=REPO, capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=REPO)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(main)
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in the repository: builds a small program against its crates in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
EOF
export DOCS_RS=1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" TMPDIR="$t"
cd "$t" && cargo build --offline -q && timeout 120 "$t/target/debug/demo"
''' % "\n".join(deps))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
L = lambda n, f="": '%s = { path = "$repo/%s"%s }' % (n, n, (', features = [%s]' % f.replace('"', '\\"') if f else ""))
FILT = 'lindera-filter = { path = "$repo/lindera-filter", features = ["filter", "ipadic", "ko-dic", "unidic"] }'
