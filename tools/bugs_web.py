import glob
SHIMS={"chumsky":["extension","unstable"],"console_log":["color"],"serde-wasm-bindgen":[],"wasm-bindgen":[],"wasm-bindgen-macro":[]}
FILES={f"{s}.rs":open(f"/verif/shim/{s}/src/lib.rs").read() for s in SHIMS}
DEMO='''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds in this demonstration.
# The web bindings are compiled from the repository for the host; the crates that need a browser or are not available
# offline are replaced by the stand-ins beside this file.
set -u
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'find "$W" -delete' EXIT
mkdir -p "$W/demo/src"
cp "$HERE/main.rs" "$W/demo/src/main.rs"
pkg() { printf '[package]\\nname = "%s"\\nversion = "%s"\\nedition = "2021"\\n[features]\\nwasm = []\\ncolor = []\\nconsole_error_panic_hook = []\\n[workspace]\\n' "$1" "${2:-0.1.0}"; }
for s in chumsky console_log serde-wasm-bindgen wasm-bindgen wasm-bindgen-macro; do
  mkdir -p "$W/$s/src"; cp "$HERE/$s.rs" "$W/$s/src/lib.rs"
done
IT="input_tree = { path = \\"$REPO/aftermath-core/input_tree\\" }"
SERDE='serde = { version = "1.0", features = ["derive"] }'
dep() { for d in "$@"; do printf '%s = { path = "../%s" }\\n' "$d" "$d"; done; }
lib() { mkdir -p "$W/$1"; { pkg "${3:-$1}"; printf '[lib]\\npath = "%s"\\n[dependencies]\\n%s\\n%s\\nlog = "0.4"\\n' "$REPO/aftermath-core/$2/src/lib.rs" "$IT" "$SERDE"; } > "$W/$1/Cargo.toml"; }
pkg chumsky > "$W/chumsky/Cargo.toml"
{ pkg console_log 1.0.0; printf '[dependencies]\\nlog = "0.4"\\n'; } > "$W/console_log/Cargo.toml"
{ pkg wasm-bindgen-macro; printf '[lib]\\nproc-macro = true\\n'; } > "$W/wasm-bindgen-macro/Cargo.toml"
{ pkg wasm-bindgen 0.2.100; printf '[dependencies]\\nserde_json = "1.0"\\n'; dep wasm-bindgen-macro; } > "$W/wasm-bindgen/Cargo.toml"
{ pkg serde-wasm-bindgen 0.6.0; printf '[dependencies]\\nserde = "1.0"\\nserde_json = "1.0"\\n'; dep wasm-bindgen; } > "$W/serde-wasm-bindgen/Cargo.toml"
lib parser parser; { printf 'unicode-ident = "1.0"\\n'; dep chumsky; } >> "$W/parser/Cargo.toml"
lib serialization serialization; { printf 'thiserror = "1.0"\\nserde_json = "1.0"\\n'; dep parser; } >> "$W/serialization/Cargo.toml"
lib caret caret; dep parser serialization >> "$W/caret/Cargo.toml"
lib web web; dep parser caret wasm-bindgen serde-wasm-bindgen console_log >> "$W/web/Cargo.toml"
{ pkg demo; printf '[dependencies]\\n%s\\nserde_json = "1.0"\\nwasm-bindgen = { path = "../wasm-bindgen" }\\nweb = { path = "../web" }\\n' "$IT"; dep parser caret; } > "$W/demo/Cargo.toml"
cd "$W/demo" && CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints allow" CARGO_TARGET_DIR="$W/target" cargo run -q --offline
'''
USE='''#![allow(unused)]
use serde_json::{json, Value};
use wasm_bindgen::JsValue;
use web::{math_editor::*, math_parser::*};
use input_tree::{direction::*, focus::*, row::*};
use caret::primitive::MoveMode;
fn editor() -> MathEditorBindings {
    let mut m = ParseModulesBindings::new();
    let mut list = vec![ParseModulesCreator::make_core(&mut m), ParseModulesCreator::make_arithmetic(&mut m), ParseModulesCreator::make_calculus(&mut m),
        ParseModulesCreator::make_collections(&mut m), ParseModulesCreator::make_comparison(&mut m), ParseModulesCreator::make_function(&mut m),
        ParseModulesCreator::make_logic(&mut m), ParseModulesCreator::make_string(&mut m)];
    let mut c = ParseModuleCollectionBindings::new(&m);
    for x in list { c.add_module(x); }
    MathEditorBindings::new(&MathParserBindings::new(c))
}
fn typed(e: &mut MathEditorBindings, v: &[&str]) { e.insert_at_caret(JsValue(json!(v))).unwrap(); }
fn text(e: &MathEditorBindings) -> Value { e.get_input_tree().unwrap().0 }
fn range(a: usize, b: usize) -> MinimalInputRowRange { MinimalInputRowRange { row_indices: RowIndices::new(vec![]), start: Offset(a), end: Offset(b) } }
'''
W="aftermath-core/web/src/"
def bug(id,needs,breaks,edits,main):
    return dict(id=id,property="C37",kind="own",needs=needs,breaks=breaks,edits=edits,demo=DEMO,files=FILES,main=USE+main)
BUGS=[
bug("web-grapheme-dropped","typing a symbol that consists of several code points, e.g. a letter with a combining accent",
 "the web bindings drop symbols of several code points instead of handing them to the editor",
 [(W+"math_editor.rs","        self.editor.insert_at_caret(values);\n","        self.editor.insert_at_caret(\n            values\n                .into_iter()\n                .filter(|v| v.chars().count() == 1)\n                .collect(),\n        );\n")],
 '''
fn main() {
    let mut e = editor();
    typed(&mut e, &["x", "e\\u{301}"]);
    assert_eq!(text(&e), json!({"values": [{"Symbol": "x"}, {"Symbol": "e\\u{301}"}]}));
}
'''),
bug("web-selected-match","an open completion list with several completions, after choosing another one than the first",
 "the front end is always told that the first completion is selected",
 [(W+"math_editor.rs","            selected_index,\n            matches: matches","            selected_index: selected_index.min(matches.len().saturating_sub(2)),\n            matches: matches")],
 '''
fn main() {
    let mut e = editor();
    typed(&mut e, &["l", "i"]);
    e.open_autocomplete();
    let n = e.get_autocomplete().unwrap().0["matches"].as_array().expect("matches").len();
    assert!(n > 1);
    let mut seen = std::collections::BTreeSet::new();
    for _ in 0..n {
        seen.insert(e.get_autocomplete().unwrap().0["selected_index"].as_u64().unwrap());
        e.move_in_autocomplete(VerticalDirection::Down);
    }
    assert_eq!(seen.len(), n);
}
'''),
bug("web-splice-malformed","replacing a range by a malformed value",
 "a malformed value is taken for an empty one: no error is reported and the range is deleted",
 [(W+"math_editor.rs","        let values: Vec<InputNode> = serde_wasm_bindgen::from_value(values)?;","        let values: Vec<InputNode> = serde_wasm_bindgen::from_value(values).unwrap_or_default();")],
 '''
fn main() {
    let mut e = editor();
    typed(&mut e, &["x", "y"]);
    let before = text(&e);
    let r = e.splice_at_range(range(0, 1), JsValue(json!([{"Container": ["Fraction", {"values": [], "width": 0}]}])));
    assert!(r.is_err());
    assert_eq!(text(&e), before);
}
'''),
]
