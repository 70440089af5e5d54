//! C37: every sequence of calls through the web bindings, in lockstep with the editor they wrap.
#[allow(dead_code)]
#[path = "../../full/src/ed.rs"]
mod ed;
use crate::{editor_call, Host};
use caret::math_editor::{MathEditor, SerializedDataType};
use caret::primitive::primitive_edit::CaretRemoveMode;
use caret::primitive::MoveMode;
use ed::*;
use input_tree::direction::{Direction, VerticalDirection};
use parser::parser::MathParser;
use serde_json::{json, Value};
use std::rc::Rc;
use vcommon::*;
use web::math_editor::MathEditorBindings;

const MODULES: [&str; 8] = ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string"];

/// A parser built through the bindings: the modules made in one order and added in another. Also gives the rule names.
fn build(host: &mut Host, made: &[usize], added: &[usize]) -> (u64, Vec<(Vec<String>, u32)>) {
    let ask = |h: &mut Host, q: Value| h.call(&q).expect("call");
    let m = ask(host, json!({"op": "ParseModulesBindings"})).as_u64().unwrap();
    let mut ids = [0u64; 8];
    for i in made {
        ids[*i] = ask(host, json!({"op": "make", "h": m, "args": [MODULES[*i]]})).as_u64().unwrap();
    }
    let c = ask(host, json!({"op": "ParseModuleCollectionBindings", "args": [m]}));
    for i in added {
        ask(host, json!({"op": "add_module", "h": c, "args": [ids[*i]]}));
    }
    let p = ask(host, json!({"op": "MathParserBindings", "args": [c]})).as_u64().unwrap();
    let names = serde_json::from_value(ask(host, json!({"op": "get_syntax_node_name_map", "h": m}))).unwrap();
    (p, names)
}

// ---------------------------------------------------------------- how values look on the other side

fn node_value(n: &N) -> Value {
    match n {
        N::S(s) => json!({ "Symbol": s }),
        N::C(v, w, cells) => {
            let kind = match v {
                V::Frac => "Fraction",
                V::Root => "Root",
                V::Sup => "Sup",
                V::Sub => "Sub",
                V::Table => "Table",
            };
            json!({"Container": [kind, {"values": cells.iter().map(row_value).collect::<Vec<_>>(), "width": w}]})
        }
    }
}
fn row_value(r: &Row) -> Value {
    json!({"values": r.iter().map(node_value).collect::<Vec<_>>()})
}
fn path_value(p: &Path) -> Value {
    json!(p.iter().map(|(i, c)| json!([i, c])).collect::<Vec<_>>())
}
fn position_value(p: &Pos) -> Value {
    json!({"row_indices": path_value(&p.path), "offset": p.off})
}
fn caret_value(tree: &Row, s: &Sel) -> Value {
    match s {
        Sel::Row(p, a, b) => json!([{"Row": {"row_indices": path_value(p), "start": a, "end": b}}]),
        Sel::Grid(p, i, (x0, y0), (x1, y1)) => {
            let w = match row_at(tree, p).and_then(|r| r.get(*i)) {
                Some(N::C(_, w, _)) => *w,
                _ => 0,
            };
            // the last selected cell is the one before the end
            json!([{"Grid": {"row_indices": path_value(p), "index": i, "range": {"start": y0 * w + x0, "end": y1 * w + x1 + 1, "width": w}}}])
        }
    }
}

// ---------------------------------------------------------------- commands

#[derive(Clone, Debug)]
enum Cmd {
    Focus,
    Unfocus,
    Move(&'static str),
    Shift(&'static str),
    Remove(&'static str),
    Type(&'static [&'static str]),
    SelectAll,
    Undo,
    Redo,
    /// a position given as a number of caret steps from the start
    Start(usize),
    Extend(usize),
    Finish,
    Copy,
    PasteCopied,
    PasteNodes,
    PasteBroken(&'static str),
    Open,
    Accept(bool),
    Pick(&'static str),
    Splice(usize, usize, bool),
    BadType(Value),
    BadSplice(Value),
}
use Cmd::*;
fn commands() -> Vec<Cmd> {
    vec![
        Focus, Unfocus,
        Move("Left"), Move("Right"), Move("Up"), Move("Down"),
        Shift("Left"), Shift("Right"), Shift("Up"), Shift("Down"),
        Remove("Left"), Remove("Right"), Remove("Range"),
        Type(&["x"]), Type(&["e\u{301}", "1"]), Type(&["s", "u", "m"]), Type(&["l", "i"]), Type(&[]),
        SelectAll, Undo, Redo,
        Start(0), Start(1), Start(3), Extend(0), Extend(2), Extend(5), Finish,
        Copy, PasteCopied, PasteNodes, PasteBroken(""), PasteBroken("{\"version\":1,\"data\":[{\"Symbol\":1}]}"), PasteBroken("[1]"),
        Open, Accept(true), Accept(false), Pick("Down"), Pick("Up"),
        Splice(0, 1, true), Splice(1, 1, false), Splice(0, 0, true),
        BadType(json!("x")), BadType(json!([1])), BadType(Value::Null),
        BadSplice(json!("x")), BadSplice(json!([{"Symbol": 3}])), BadSplice(json!([{"Container": ["Fraction", {"values": [{"values": []}], "width": 0}]}])), BadSplice(json!({"values": []})),
    ]
}
fn sample_nodes() -> Row {
    vec![N::S("p".into()), N::C(V::Frac, 1, vec![vec![N::S("q".into())], vec![]]), N::S("\u{1d54f}".into())]
}
fn show(c: &(usize, Vec<usize>)) -> Value {
    let all = commands();
    json!({"start": row_json(&starts()[c.0]), "calls": c.1.iter().map(|i| format!("{:?}", all[*i])).collect::<Vec<_>>()})
}
fn starts() -> Vec<Row> {
    let s = |v: &str| N::S(v.into());
    vec![
        vec![s("a"), N::C(V::Frac, 1, vec![vec![s("x")], vec![]])],
        vec![N::C(V::Table, 2, vec![vec![s("a")], vec![s("b")], vec![], vec![s("d")]]), s("+")],
        vec![],
        vec![s("s"), s("u"), N::C(V::Sup, 1, vec![vec![s("2")]])],
        vec![s("\""), s("h"), s("("), N::C(V::Root, 2, vec![vec![s("2")], vec![s("x")]]), s(")")],
    ]
}
fn direction(d: &str) -> Direction {
    match d {
        "Left" => Direction::Left,
        "Right" => Direction::Right,
        "Up" => Direction::Up,
        _ => Direction::Down,
    }
}

/// What a call answers on both sides. Err: an exception.
type Answer = Result<Value, ()>;
fn some(o: Option<()>) -> Answer {
    Ok(json!(o.is_some()))
}
fn undefined() -> Answer {
    Ok(Value::Null)
}
struct Pair {
    b: MathEditorBindings,
    e: Ed,
    copied: Option<String>,
}
impl Pair {
    fn place(&self, n: usize) -> Pos {
        let ps = positions(&self.e.tree());
        ps[n.min(ps.len() - 1)].clone()
    }
    /// The call through the bindings.
    fn bound(&mut self, c: &Cmd) -> Answer {
        let (op, args) = match c {
            Focus => ("focus", json!([])),
            Unfocus => ("unfocus", json!([])),
            Move(d) => ("move_caret", json!([d, "Char"])),
            Shift(d) => ("select_with_caret", json!([d, "Char"])),
            Remove(d) => ("remove_at_caret", json!([d, "Char"])),
            Type(t) => ("insert_at_caret", json!([t])),
            BadType(v) => ("insert_at_caret", json!([v])),
            SelectAll => ("select_all", json!([])),
            Undo => ("undo", json!([])),
            Redo => ("redo", json!([])),
            Start(n) => ("start_selection", json!([position_value(&self.place(*n)), "Char"])),
            Extend(n) => ("extend_selection", json!([position_value(&self.place(*n))])),
            Finish => ("finish_selection", json!([])),
            Copy => ("copy", json!(["JsonInputTree"])),
            PasteCopied => ("paste", json!([self.copied.clone().unwrap_or_default(), "JsonInputTree"])),
            PasteNodes => ("paste", json!([json!({"version": 1, "data": sample_nodes().iter().map(node_value).collect::<Vec<_>>()}).to_string(), "JsonInputTree"])),
            PasteBroken(t) => ("paste", json!([t, "JsonInputTree"])),
            Open => ("open_autocomplete", json!([])),
            Accept(v) => ("finish_autocomplete", json!([v])),
            Pick(d) => ("move_in_autocomplete", json!([d])),
            Splice(a, b, nodes) => {
                let n = self.e.tree().len();
                ("splice_at_range", json!([{"row_indices": [], "start": a.min(&n), "end": b.min(&n)}, if *nodes { json!(sample_nodes().iter().map(node_value).collect::<Vec<_>>()) } else { json!([]) }]))
            }
            BadSplice(v) => ("splice_at_range", json!([{"row_indices": [], "start": 0, "end": 0}, v])),
        };
        editor_call(&mut self.b, op, &json!({ "args": args })).map_err(|_| ())
    }
    /// The same on the editor itself.
    fn direct(&mut self, c: &Cmd) -> Answer {
        let place = |n: usize, me: &Pair| pos_to_real(&me.place(n));
        let char = MoveMode::Char;
        match c {
            Focus => self.e.e.focus(),
            Unfocus => self.e.e.unfocus(),
            Move(d) => self.e.e.move_caret(direction(d), char),
            Shift(d) => return some(self.e.e.select_with_caret(direction(d), char)),
            Remove(d) => {
                let mode = match *d {
                    "Left" => CaretRemoveMode::Left,
                    "Right" => CaretRemoveMode::Right,
                    _ => CaretRemoveMode::Range,
                };
                return some(self.e.e.remove_at_caret(mode, char).map(|_| ()));
            }
            Type(t) => self.e.typed(t),
            SelectAll => self.e.e.select_all(),
            Undo => return some(self.e.e.undo().map(|_| ())),
            Redo => return some(self.e.e.redo().map(|_| ())),
            Start(n) => {
                let p = place(*n, self);
                self.e.e.start_selection(p, char)
            }
            Extend(n) => {
                let p = place(*n, self);
                self.e.e.extend_selection(p)
            }
            Finish => self.e.e.finish_selection(),
            Copy => {
                let s = self.e.e.copy(SerializedDataType::JsonInputTree).map_err(|_| ())?;
                self.copied = Some(s.clone());
                return Ok(json!(s));
            }
            PasteCopied => {
                let s = self.copied.clone().unwrap_or_default();
                self.e.paste(&s).map_err(|_| ())?
            }
            PasteNodes => self.e.paste(&json!({"version": 1, "data": sample_nodes().iter().map(node_value).collect::<Vec<_>>()}).to_string()).map_err(|_| ())?,
            PasteBroken(_) | BadType(_) | BadSplice(_) => return Err(()),
            Open => return some(self.e.e.open_autocomplete()),
            Accept(v) => return some(self.e.e.finish_autocomplete(*v)),
            Pick(d) => return some(self.e.e.move_in_autocomplete(if *d == "Down" { VerticalDirection::Down } else { VerticalDirection::Up })),
            Splice(a, b, nodes) => {
                let n = self.e.tree().len();
                self.e.splice(&(vec![], *a.min(&n), *b.min(&n)), &if *nodes { sample_nodes() } else { vec![] })
            }
        }
        undefined()
    }
    fn compare(&mut self, l: &mut Local, when: &str) -> bool {
        let ask = |b: &mut MathEditorBindings, op: &str| editor_call(b, op, &json!({"args": []}));
        let tree = self.e.tree();
        let autocomplete = match self.e.e.get_autocomplete() {
            None => Value::Null,
            Some(a) => {
                let (selected, matches, caret) = a.destructure();
                let matches: Vec<Value> = matches
                    .iter()
                    .map(|m| {
                        let result: Vec<Value> = nodes_from_real(&m.rule.result).iter().map(node_value).collect();
                        json!({"rule": {"parser": m.rule.parser, "result": result}, "rule_match_length": m.rule_match_length, "input_match_length": m.input_match_length})
                    })
                    .collect();
                json!({"selected_index": selected, "matches": matches, "caret_position": position_value(&pos_from_real(&caret))})
            }
        };
        let want = [
            ("get_input_tree", row_value(&tree)),
            ("get_caret", caret_value(&tree, &self.e.sel())),
            ("get_syntax_tree", serde_json::to_value(self.e.e.get_syntax_tree()).unwrap()),
            ("get_autocomplete", autocomplete),
        ];
        for (op, want) in want {
            l.transitions += 1;
            match ask(&mut self.b, op) {
                Ok(v) if v == want => {}
                x => {
                    l.fail(op, format!("{when}, {op} answers {x:?}, expected {want}"));
                    return false;
                }
            }
        }
        true
    }
}

struct Setup {
    host: Host,
    parser: u64,
    direct: Rc<MathParser>,
}
fn setup() -> Setup {
    let mut host = Host::default();
    let all: Vec<usize> = (0..8).collect();
    let (parser, _) = build(&mut host, &all, &all);
    Setup { host, parser, direct: Rc::new(make_parser().0) }
}
fn judge(s: &mut Setup, c: &(usize, Vec<usize>), l: &mut Local) {
    let all = commands();
    let start = starts()[c.0].clone();
    let mut p = Pair { b: s.host.new_editor(s.parser), e: Ed { e: MathEditor::new(s.direct.clone()) }, copied: None };
    l.traces += 1;
    let nodes = json!(start.iter().map(node_value).collect::<Vec<_>>());
    editor_call(&mut p.b, "splice_at_range", &json!({"args": [{"row_indices": [], "start": 0, "end": 0}, nodes]})).expect("setting up");
    p.e.splice(&(vec![], 0, 0), &start);
    for (k, i) in c.1.iter().enumerate() {
        // places are those of the formula before the call
        let cmd = &all[*i];
        let copied = p.copied.clone();
        let got = guard(|| p.bound(cmd));
        p.copied = copied;
        let want = guard(|| p.direct(cmd));
        match (got, want) {
            (Err(_), Err(w)) if w.msg.contains("not yet implemented") => {
                l.count("ended where the core has no implementation", 1);
                return;
            }
            (_, Err(w)) if w.msg.contains("not yet implemented") => {
                l.fail("answer", format!("call {k} {cmd:?} is not implemented by the editor, but answered by the bindings"));
                return;
            }
            (Ok(a), Ok(b)) if a == b => {}
            (a, b) => {
                l.fail("answer", format!("call {k} {cmd:?} answers {a:?}, the editor {b:?}"));
                return;
            }
        }
    }
    l.states += 1;
    p.compare(l, "after the calls");
}
fn words(n: usize, alphabet: &[usize], starts: &[usize]) -> Vec<(usize, Vec<usize>)> {
    let mut out = vec![];
    for s in starts {
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for d in 0..=n {
            out.extend(level.iter().map(|w| (*s, w.clone())));
            if d < n {
                level = level.iter().flat_map(|w| alphabet.iter().map(move |a| [&w[..], &[*a]].concat())).collect();
            }
        }
    }
    out
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    permutations(n - 1).into_iter().flat_map(|p| (0..n).map(move |i| [&p[..i], &[n - 1], &p[i..]].concat())).collect()
}

/// A syntax tree with the names in the place of their numbers.
fn named(v: &Value, names: &[(Vec<String>, u32)]) -> Result<Value, String> {
    let id = v["name"].as_u64().ok_or("no name")?;
    let name = names.iter().find(|(_, i)| *i as u64 == id).ok_or_else(|| format!("the rule {id} has no name"))?.0.join("::");
    let kids = &v["children"];
    let list = |l: &Value| -> Result<Vec<Value>, String> { l.as_array().ok_or("no list")?.iter().map(|k| named(k, names)).collect() };
    let children = if let Some(k) = kids.get("Children") {
        json!({"children": list(k)?})
    } else if let Some(k) = kids.get("NewRows") {
        json!({"rows": list(&k["values"])?, "width": k["width"]})
    } else {
        kids.clone()
    };
    Ok(json!([name, children, v["range"]]))
}
fn order_formulas() -> Vec<Row> {
    let s = |v: &str| -> Row { v.chars().map(|c| N::S(c.to_string())).collect() };
    let mut f = s("a(1+x)=\"q\"");
    f.push(N::C(V::Sup, 1, vec![s("2,-3!")]));
    vec![f, s("lim x∧∞≥⊤*3/4"), s("∑f(x),?)"), s("sin (  )")]
}

pub fn c37(ctx: &Ctx) {
    ctx.assume("wasm-bindgen and serde-wasm-bindgen are stand-ins over JSON values (shim/): what the generated JavaScript glue does with typed arguments is outside");
    ctx.assume("editor calls the core has no implementation for (word and line moves, some on selections of table cells) end a sequence");
    let n = commands().len();
    let all: Vec<usize> = (0..n).collect();
    ctx.run("every 2 calls", &words(2, &all, &[0, 1, 2, 3, 4]), show, setup, judge);
    ctx.run("every 3 calls", &words(3, &all, &[0, 1, 2, 3, 4]), show, setup, judge);
    if ctx.thorough() {
        for (k, title) in ["fraction", "table", "empty", "script", "root"].iter().enumerate() {
            ctx.run(&format!("every 4 calls on the {title} formula"), &words(4, &all, &[k]), show, setup, judge);
        }
    }
    let core: Vec<usize> = commands().iter().enumerate().filter(|(_, c)| matches!(c, Move("Left") | Shift("Right") | Remove("Left") | Type(["s", ..]) | Undo | Redo | Copy | PasteCopied | Accept(true) | Pick("Down") | Start(1) | Splice(0, 1, true))).map(|(i, _)| i).collect();
    // the same one to three calls over and over
    let times = ctx.pick(30, 100);
    let over: Vec<(usize, Vec<usize>)> = words(2, &all, &[0, 3]).into_iter().chain(words(3, &core, &[0])).filter(|w| !w.1.is_empty()).map(|(s, w)| (s, (0..times).map(|i| w[i % w.len()]).collect())).collect();
    ctx.run("one to three calls over and over", &over, show, setup, judge);
    ctx.run("every 5 calls of the main ones", &words(ctx.pick(5, 6), &core, &[0, 3]), show, setup, judge);

    // the modules may be made in any order; the order they are added in is the one that counts
    let orders = if ctx.thorough() { permutations(8) } else { permutations(6).into_iter().map(|mut p| { p.extend([6, 7]); p }).collect() };
    let show_order = |o: &Vec<usize>| json!(o.iter().map(|i| MODULES[*i]).collect::<Vec<_>>());
    let init = || {
        let mut host = Host::default();
        let all: Vec<usize> = (0..8).collect();
        let (p, names) = build(&mut host, &all, &all);
        let trees = parse(&mut host, p, &names).expect("the usual order");
        let (_, own) = make_parser();
        // and it is the parser the editor is used with elsewhere
        let _ = own;
        trees
    };
    ctx.run("every order of making the modules", &orders, show_order, init, |want, order, l| {
        let mut host = Host::default();
        let all: Vec<usize> = (0..8).collect();
        let (p, names) = build(&mut host, order, &all);
        l.states += 1;
        l.traces += 1;
        l.transitions += want.len() as u64;
        let ids: std::collections::BTreeSet<u32> = names.iter().map(|(_, i)| *i).collect();
        let paths: std::collections::BTreeSet<&Vec<String>> = names.iter().map(|(p, _)| p).collect();
        if ids.len() != names.len() || paths.len() != names.len() {
            l.fail("names", "two rules share a name or a number".to_string());
        }
        match parse(&mut host, p, &names) {
            Err(e) => l.fail("names", e),
            Ok(got) => {
                for (g, w) in got.iter().zip(want) {
                    if g != w {
                        l.fail("order", format!("parsing depends on the order the modules were made in: {g} instead of {w}"));
                        break;
                    }
                }
            }
        }
    });
}
fn parse(host: &mut Host, p: u64, names: &[(Vec<String>, u32)]) -> Result<Vec<Value>, String> {
    order_formulas()
        .iter()
        .map(|f| {
            let mut e = host.new_editor(p);
            let nodes = json!(f.iter().map(node_value).collect::<Vec<_>>());
            editor_call(&mut e, "splice_at_range", &json!({"args": [{"row_indices": [], "start": 0, "end": 0}, nodes]})).map_err(|e| e.to_string())?;
            named(&editor_call(&mut e, "get_syntax_tree", &json!({"args": []})).map_err(|e| e.to_string())?, names)
        })
        .collect()
}
