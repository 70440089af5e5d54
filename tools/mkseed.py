#!/usr/bin/env python3
"""mkseed.py <defs.py>: makes /verif/seeded/<id>/ from definitions (edits are made in /repo, diffed, and undone)."""
import sys, os, json, subprocess, runpy
REPO="/repo"
DEMO_TREE='''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds in this demonstration.
set -u
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'find "$W" -delete' EXIT
mkdir "$W/src"; cp "$HERE/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
input_tree = { path = "$REPO/aftermath-core/input_tree" }
serde_json = "1.0"
serde = "1.0"
[workspace]
X
cd "$W" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target" cargo run -q --offline
'''
DEMO_FULL='''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds in this demonstration.
# parser/caret/serialization are compiled from the repository; the git dependency chumsky, which is not available
# offline, is replaced by the stand-in in chumsky_standin.rs.
set -u
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'find "$W" -delete' EXIT
mkdir -p "$W/demo/src" "$W/chumsky/src" "$W/parser" "$W/caret" "$W/serialization"
cp "$HERE/main.rs" "$W/demo/src/main.rs"
cp "$HERE/chumsky_standin.rs" "$W/chumsky/src/lib.rs"
pkg() { printf '[package]\\nname = "%s"\\nversion = "0.1.0"\\nedition = "2021"\\n[features]\\nwasm = []\\nextension = []\\nunstable = []\\n[workspace]\\n' "$1"; }
IT="input_tree = { path = \\"$REPO/aftermath-core/input_tree\\" }"
SERDE='serde = { version = "1.0", features = ["derive"] }'
{ pkg chumsky; } > "$W/chumsky/Cargo.toml"
{ pkg parser; printf '[lib]\\npath = "%s"\\n[dependencies]\\n%s\\n%s\\nlog = "0.4"\\nunicode-ident = "1.0"\\nchumsky = { path = "../chumsky" }\\n' "$REPO/aftermath-core/parser/src/lib.rs" "$IT" "$SERDE"; } > "$W/parser/Cargo.toml"
{ pkg serialization; printf '[lib]\\npath = "%s"\\n[dependencies]\\n%s\\n%s\\nlog = "0.4"\\nthiserror = "1.0"\\nserde_json = "1.0"\\nparser = { path = "../parser" }\\n' "$REPO/aftermath-core/serialization/src/lib.rs" "$IT" "$SERDE"; } > "$W/serialization/Cargo.toml"
{ pkg caret; printf '[lib]\\npath = "%s"\\n[dependencies]\\n%s\\n%s\\nlog = "0.4"\\nparser = { path = "../parser" }\\nserialization = { path = "../serialization" }\\n' "$REPO/aftermath-core/caret/src/lib.rs" "$IT" "$SERDE"; } > "$W/caret/Cargo.toml"
{ pkg demo; printf '[dependencies]\\n%s\\nserde_json = "1.0"\\nparser = { path = "../parser" }\\ncaret = { path = "../caret" }\\nserialization = { path = "../serialization" }\\n' "$IT"; } > "$W/demo/Cargo.toml"
cd "$W/demo" && CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$W/target" cargo run -q --offline
'''
defs=runpy.run_path(sys.argv[1])["BUGS"]
only=sys.argv[2:]
def git(*a): return subprocess.run(["git","-C",REPO,*a],capture_output=True,text=True,check=True).stdout
assert not git("status","--porcelain").strip()
for b in defs:
    if only and b["id"] not in only: continue
    d="/verif/seeded/"+b["id"]; os.makedirs(d,exist_ok=True)
    try:
        for f,old,new in b["edits"]:
            p=REPO+"/"+f; s=open(p).read(); assert s.count(old)==1,(b["id"],f,s.count(old)); open(p,"w").write(s.replace(old,new))
        open(d+"/patch.diff","w").write(git("diff"))
    finally:
        git("checkout","-q","--",".")
    kind=b.get("kind","tree")
    if "main" in b: open(d+"/main.rs","w").write(b["main"])
    for name,body in b.get("files",{}).items(): open(d+"/"+name,"w").write(body)
    if kind=="full": open(d+"/chumsky_standin.rs","w").write(open("/verif/shim/chumsky/src/lib.rs").read())
    open(d+"/demo.sh","w").write(b["demo"] if kind=="own" else (DEMO_TREE if kind=="tree" else DEMO_FULL))
    json.dump(dict(property=b["property"],needs=b["needs"],what_it_breaks=b["breaks"]),open(d+"/meta.json","w"),indent=1)
    print("made",b["id"])
