use crate::trees;
use input_tree::direction::*;
use input_tree::focus::*;
use input_tree::grid::*;
use input_tree::node::InputNode;
use input_tree::print_helpers::write_with_separator;
use input_tree::row::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use vcommon::*;

// ---------------------------------------------------------------- printing

/// Independent reader of the printed form.
struct Reader<'a> {
    s: &'a [u8],
    i: usize,
}
impl Reader<'_> {
    fn eat(&mut self, t: &str) -> Option<()> {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            Some(())
        } else {
            None
        }
    }
    fn num(&mut self) -> Option<usize> {
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).ok()?.parse().ok()
    }
    fn row(&mut self) -> Option<Row> {
        self.eat("(row")?;
        let mut r = vec![];
        while self.eat(")").is_none() {
            self.eat(" ")?;
            r.push(self.node()?);
        }
        Some(r)
    }
    fn node(&mut self) -> Option<N> {
        if self.eat("\"").is_some() {
            let mut out = vec![];
            loop {
                match *self.s.get(self.i)? {
                    b'"' => {
                        self.i += 1;
                        return Some(N::S(String::from_utf8(out).ok()?));
                    }
                    b'\\' => {
                        let c = *self.s.get(self.i + 1)?;
                        if c != b'"' && c != b'\\' {
                            return None;
                        }
                        out.push(c);
                        self.i += 2;
                    }
                    c => {
                        out.push(c);
                        self.i += 1;
                    }
                }
            }
        }
        self.eat("(")?;
        let v = [("frac", V::Frac), ("root", V::Root), ("sup", V::Sup), ("sub", V::Sub), ("table", V::Table)]
            .into_iter()
            .find(|(n, _)| self.eat(n).is_some())?
            .1;
        self.eat(" ")?;
        let w = self.num()?;
        self.eat("x")?;
        let h = self.num()?;
        let mut cells = vec![];
        while self.eat(")").is_none() {
            self.eat(" ")?;
            cells.push(self.row()?);
        }
        if cells.len() != w * h {
            return None;
        }
        Some(N::C(v, w, cells))
    }
}
fn read(s: &str) -> Option<Row> {
    let mut r = Reader { s: s.as_bytes(), i: 0 };
    let row = r.row()?;
    (r.i == s.len()).then_some(row)
}

fn check_print(l: &mut Local, tree: &Row) -> Option<String> {
    l.transitions += 1;
    match guard(|| {
        let r = to_real(tree);
        let nodes: Vec<String> = r.values.iter().map(|n| n.to_string()).collect();
        (r.to_string(), nodes)
    }) {
        Err(p) => {
            l.fail("print", format!("{}: {p}", show(tree)));
            None
        }
        Ok((s, nodes)) => {
            let back = read(&s);
            if back.as_ref() != Some(tree) {
                l.fail("print", format!("{} prints as {s}, which reads as {:?}", show(tree), back.map(|b| show(&b))));
                return None;
            }
            let joined = std::iter::once("(row".to_string()).chain(nodes.iter().map(|n| format!(" {n}"))).collect::<String>() + ")";
            if joined != s {
                l.fail("print", format!("nodes of {} print as {joined} alone but the row prints as {s}", show(tree)));
            }
            Some(s)
        }
    }
}
/// All strings up to a length over an alphabet of awkward characters.
fn strings(max: usize) -> Vec<String> {
    let alphabet = ["\"", "\\", " ", "(", ")", "a", "é", "\n", "\u{301}", "x", "r"];
    let mut out = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |a| format!("{s}{a}"))).collect();
        out.extend(last.clone());
    }
    out
}
/// A table without rows also has a printed form.
fn empty_tables() -> Vec<Row> {
    (1..4).map(|w| vec![sym("a"), N::C(V::Table, w, vec![]), sym("b")]).collect()
}

pub fn c12(ctx: &Ctx) {
    let cases = union(vec![huge(), trees(ctx, (3, 4), (4, 5), true), empty_tables()]);
    ctx.run("print every formula and read it back", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        check_print(l, tree);
    });
    let strs = strings(ctx.pick(3, 4));
    ctx.run("every awkward symbol in every kind of place", &strs, |s| json!(s), || (), |_, s, l| {
        l.states += 1;
        l.traces += 1;
        let x = N::S(s.clone());
        for tree in [
            vec![x.clone()],
            vec![x.clone(), x.clone()],
            vec![N::C(V::Frac, 1, vec![vec![x.clone()], vec![]])],
            vec![sym("a"), N::C(V::Table, 2, vec![vec![x.clone(), sym("b")], vec![x.clone()]]), x.clone()],
        ] {
            check_print(l, &tree);
        }
    });
    // no two formulas print alike (symbols not relabelled, so many formulas share symbols), kinds of containers included
    let few = strings(1);
    let mut all: Vec<Row> = all_trees(ctx.pick(3, 4), ALL_KINDS).into_iter().collect();
    all.extend(rows_up_to(3, ALL_KINDS).into_iter().flatten());
    for a in &few {
        for b in &few {
            all.push(vec![N::S(a.clone()), N::S(b.clone())]);
            all.push(vec![N::S(format!("{a}{b}"))]);
            all.push(vec![N::S(format!("{a}\" \"{b}"))]);
            all.push(vec![N::S(a.clone()), N::S(" ".into()), N::S(b.clone())]);
        }
    }
    let all = vec![union(vec![all])];
    ctx.run("all printed forms differ", &all, |c| json!(c.len()), || (), |_, all, l| {
        l.states += all.len() as u64;
        l.traces += 1;
        let mut seen: HashMap<String, &Row> = HashMap::new();
        for t in all {
            if let Some(s) = check_print(l, t) {
                if let Some(o) = seen.insert(s.clone(), t) {
                    return l.fail("print", format!("{} and {} both print as {s}", show(t), show(o)));
                }
            }
        }
    });
    let lists: Vec<usize> = (0..8).collect();
    ctx.run("separated lists", &lists, |c| json!(c), || (), |_, n, l| {
        struct W<'a>(Vec<String>, &'a str);
        impl std::fmt::Display for W<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write_with_separator(self.0.iter(), self.1, f)
            }
        }
        l.states += 1;
        l.transitions += 1;
        l.traces += 1;
        for sep in [" ", ", ", ""] {
            let items: Vec<String> = (0..*n).map(|i| format!("i{i}")).collect();
            match guard(|| W(items.clone(), sep).to_string()) {
                Ok(s) if s == items.join(sep) => {}
                r => l.fail("print", format!("{n} items separated by {sep:?}: {:?}", r.map_err(|p| p.msg))),
            }
        }
    });
}

// ---------------------------------------------------------------- serialisation

pub fn json_row(r: &Row) -> Value {
    json!({"values": r.iter().map(json_node).collect::<Vec<_>>()})
}
fn json_node(n: &N) -> Value {
    match n {
        N::S(s) => json!({ "Symbol": s }),
        N::C(v, w, cells) => {
            let name = match v {
                V::Frac => "Fraction",
                V::Root => "Root",
                V::Sup => "Sup",
                V::Sub => "Sub",
                V::Table => "Table",
            };
            json!({"Container": [name, {"values": cells.iter().map(json_row).collect::<Vec<_>>(), "width": w}]})
        }
    }
}
fn json_path(p: &[(usize, usize)]) -> Value {
    json!(p.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>())
}

fn both<X: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(x: &X, shape: Option<&Value>) -> Result<(), String> {
    let v = serde_json::to_value(x).map_err(|e| format!("cannot be serialised: {e}"))?;
    if let Some(s) = shape {
        if &v != s {
            return Err(format!("serialised as {v} instead of {s}"));
        }
    }
    let back: X = serde_json::from_value(v.clone()).map_err(|e| format!("{v} cannot be read back: {e}"))?;
    if &back != x {
        return Err(format!("read back as {back:?} instead of {x:?}"));
    }
    let text = serde_json::to_string(x).map_err(|e| e.to_string())?;
    let back: X = serde_json::from_str(&text).map_err(|e| format!("{text} cannot be read back: {e}"))?;
    if &back != x {
        return Err(format!("text read back as {back:?} instead of {x:?}"));
    }
    if shape.is_some() && serde_json::from_str::<Value>(&text).ok() != Some(v.clone()) {
        return Err("text and value form differ".into());
    }
    Ok(())
}
fn outcome(l: &mut Local, what: impl Fn() -> String, r: Result<Result<(), String>, PanicInfo>) {
    l.transitions += 1;
    match r {
        Err(p) => l.fail("serialisation", format!("{}: {p}", what())),
        Ok(Err(m)) => l.fail("serialisation", format!("{}: {m}", what())),
        _ => {}
    }
}

/// The JSON reader (not a part of the repository) refuses text that is nested more than 128 deep, which is 31 containers.
fn huge_text() -> Vec<Row> {
    huge().into_iter().filter(|r| depth(r) <= 30).collect()
}

pub fn c13(ctx: &Ctx) {
    let cases = union(vec![huge_text(), trees(ctx, (3, 4), (4, 5), true), empty_tables()]);
    ctx.run("every formula", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        outcome(l, || show(tree), guard(|| both(&to_real(tree), Some(&json_row(tree)))));
        outcome(l, || show(tree), guard(|| both(&nodes_to_real(tree), None)));
    });
    let strs = strings(ctx.pick(3, 4));
    ctx.run("every awkward symbol", &strs, |s| json!(s), || (), |_, s, l| {
        l.states += 1;
        l.traces += 1;
        let tree = vec![N::S(s.clone()), N::C(V::Sup, 1, vec![vec![N::S(s.clone())]])];
        outcome(l, || show(&tree), guard(|| both(&to_real(&tree), Some(&json_row(&tree)))));
    });
    let cases = trees(ctx, (3, 4), (4, 5), true);
    ctx.run("every position, range and table selection", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        for p in rows(tree) {
            let n = row_at(tree, &p).unwrap().len();
            let rp = path_to_real(&p);
            outcome(l, || format!("row address {p:?}"), guard(|| both(&rp, Some(&json_path(&p)))));
            for s in 0..=n {
                let m = pos_to_real(&pos(&p, s));
                outcome(l, || format!("position {s} in {p:?}"), guard(|| both(&m, Some(&json!({"row_indices": json_path(&p), "offset": s})))));
                for e in 0..=n {
                    let m = rng_to_real(&(p.clone(), s, e));
                    outcome(l, || format!("range {s}..{e} in {p:?}"), guard(|| both(&m, Some(&json!({"row_indices": json_path(&p), "start": s, "end": e})))));
                }
            }
            for i in 0..n {
                let e = ElementIndices { row_indices: path_to_real(&p), index: i };
                outcome(l, || format!("node {i} in {p:?}"), guard(|| both(&e, Some(&json!({"row_indices": json_path(&p), "index": i})))));
            }
        }
        for (p, i) in nodes(tree) {
            if let N::C(_, w, cells) = &row_at(tree, &p).unwrap()[i] {
                let g = GridVec::from_one_dimensional(vec![0u8; cells.len()], *w);
                for a in 0..cells.len() {
                    let xy = Index2D::from_index(a, &g);
                    outcome(l, || format!("cell {a}"), guard(|| both(&xy, None)));
                    for b in 0..cells.len() {
                        let r = guard(|| {
                            let range = GridRectangle::from_indices_inclusive(xy, Index2D::from_index(b, &g), &g);
                            let m = MinimalInputGridRange { row_indices: path_to_real(&p), index: i, range };
                            both(&range, None)?;
                            both(&m, None)?;
                            let v = serde_json::to_value(&m).unwrap();
                            if v["row_indices"] != json_path(&p) || v["index"] != json!(i) || v.get("range").is_none() {
                                return Err(format!("serialised as {v}"));
                            }
                            Ok(())
                        });
                        outcome(l, || format!("selection {a}..{b} of node {i} in {p:?}"), r);
                    }
                }
            }
        }
    });
    // numbers of every size, in every place there is one
    let sizes: Vec<usize> = vec![0, 1, 9, 10, 23, 24, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 99999, (1 << 31) - 1, 1 << 31, (1 << 32) - 1];
    let cases: Vec<(usize, usize)> = sizes.iter().flat_map(|a| sizes.iter().map(move |b| (*a, *b))).collect();
    ctx.run("addresses with numbers of every size", &cases, |c| json!(c), || (), |_, &(a, b), l| {
        l.states += 1;
        l.traces += 1;
        for p in [vec![], vec![(a, b)], vec![(b, 0), (a, b), (0, a)]] {
            outcome(l, || format!("row address {p:?}"), guard(|| both(&path_to_real(&p), Some(&json_path(&p)))));
            let m = pos_to_real(&pos(&p, a));
            outcome(l, || format!("position {a} in {p:?}"), guard(|| both(&m, Some(&json!({"row_indices": json_path(&p), "offset": a})))));
            let m = rng_to_real(&(p.clone(), a, b));
            outcome(l, || format!("range {a}..{b} in {p:?}"), guard(|| both(&m, Some(&json!({"row_indices": json_path(&p), "start": a, "end": b})))));
            let e = ElementIndices { row_indices: path_to_real(&p), index: a };
            outcome(l, || format!("node {a} in {p:?}"), guard(|| both(&e, Some(&json!({"row_indices": json_path(&p), "index": a})))));
        }
    });
    // formulas of two-digit sizes
    let cases = union(vec![large(), huge_text()]);
    ctx.run("large formulas", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        outcome(l, || show(tree), guard(|| both(&to_real(tree), Some(&json_row(tree)))));
        outcome(l, || show(tree), guard(|| both(&nodes_to_real(tree), None)));
    });
    // cell lists that are (not) rectangular
    let max = ctx.pick(7, 12);
    let mut shapes: Vec<(usize, i64)> = (0..=max).flat_map(|n| (-1..=(max as i64 + 1)).map(move |w| (n, w))).collect();
    for w in [16usize, 17, 32, 33, 64, 65, 128, 256, 257, 300] {
        shapes.extend([0, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1].map(|n| (n, w as i64)));
    }
    ctx.run("every cell count and width, well-formed or not", &shapes, |c| json!(c), || (), |_, &(n, w), l| {
        l.states += 1;
        l.traces += 1;
        let cells: Vec<Value> = (0..n).map(|i| json!({"values": [{"Symbol": format!("c{i}")}]})).collect();
        let grid = json!({"values": cells, "width": w});
        let ok = w > 0 && n as i64 % w == 0;
        for kind in ["Fraction", "Root", "Sup", "Sub", "Table"] {
            let node = json!({"Container": [kind, grid]});
            for doc in [json!({"values": [node]}), json!({"values": [{"Symbol": "a"}, {"Container": ["Sup", {"values": [{"values": [node]}], "width": 1}]}]})] {
                l.transitions += 2;
                for (form, r) in [
                    ("value", guard(|| serde_json::from_value::<InputRow>(doc.clone()).map_err(|e| e.to_string()))),
                    ("text", guard(|| serde_json::from_str::<InputRow>(&doc.to_string()).map_err(|e| e.to_string()))),
                ] {
                    match r {
                        Err(p) => l.fail("malformed", format!("{doc} as {form}: {p}")),
                        Ok(Ok(row)) if ok => {
                            if !matches!(guard(|| grids_consistent(&row)), Ok(true)) || serde_json::to_value(&row).ok().as_ref() != Some(&doc) {
                                l.fail("malformed", format!("{doc} as {form} loads wrongly"))
                            }
                        }
                        Ok(Err(_)) if !ok => {}
                        Ok(Ok(_)) => l.fail("malformed", format!("{n} cells of width {w} are accepted ({form})")),
                        Ok(Err(e)) => l.fail("malformed", format!("{n} cells of width {w} are refused ({form}): {e}")),
                    }
                }
            }
        }
    });
    // documents that are not formulas are errors, not crashes or silently something else
    let docs: Vec<Value> = bad_docs();
    ctx.run("documents that are not formulas", &docs, |c| c.clone(), || (), |_, d, l| {
        l.states += 1;
        l.traces += 1;
        l.transitions += 1;
        match guard(|| serde_json::from_value::<InputRow>(d.clone())) {
            Ok(Err(_)) => {}
            Ok(Ok(r)) => l.fail("malformed", format!("{d} is read as {r}")),
            Err(p) => l.fail("malformed", format!("{d}: {p}")),
        }
    });
    let unit = vec![0u8];
    ctx.run("directions", &unit, |c| json!(c), || (), |_, _, l| {
        l.states += 1;
        l.traces += 1;
        for (d, n) in [(Direction::Left, "Left"), (Direction::Right, "Right"), (Direction::Up, "Up"), (Direction::Down, "Down")] {
            outcome(l, || n.into(), guard(|| both(&d, Some(&json!(n)))));
        }
        for (d, n, f) in [(HorizontalDirection::Left, "Left", Direction::Left), (HorizontalDirection::Right, "Right", Direction::Right)] {
            outcome(l, || n.into(), guard(|| both(&d, Some(&json!(n)))));
            outcome(l, || n.into(), guard(|| if Direction::from(d) == f { Ok(()) } else { Err("converts wrongly".into()) }));
        }
        for (d, n, f) in [(VerticalDirection::Up, "Up", Direction::Up), (VerticalDirection::Down, "Down", Direction::Down)] {
            outcome(l, || n.into(), guard(|| both(&d, Some(&json!(n)))));
            outcome(l, || n.into(), guard(|| if Direction::from(d) == f { Ok(()) } else { Err("converts wrongly".into()) }));
        }
        let _: Option<InputNode> = None;
    });
}
fn bad_docs() -> Vec<Value> {
    let frac = |c: Value, w: Value| json!({"values": [{"Container": ["Fraction", {"values": c, "width": w}]}]});
    vec![
        json!(null),
        json!({}),
        json!("a"),
        json!({"values": null}),
        json!({"values": ["a"]}),
        json!({"values": [{"Symbol": 1}]}),
        json!({"values": [{"Symbol": null}]}),
        json!({"values": [{"Unknown": "a"}]}),
        json!({"values": [{"Container": ["Fraction"]}]}),
        json!({"values": [{"Container": ["Matrix", {"values": [], "width": 1}]}]}),
        json!({"values": [{"Container": "Fraction"}]}),
        frac(json!([{"Symbol": "a"}]), json!(1)),
        frac(json!([{"values": []}]), json!(null)),
        frac(json!([{"values": []}]), json!("1")),
        frac(json!([{"values": []}]), json!(1.5)),
        frac(json!([{"values": []}]), json!(-1)),
        frac(json!(null), json!(1)),
        json!({"values": [{"Container": ["Fraction", {"values": [{"values": []}]}]}]}),
        json!({"values": [{"Container": ["Fraction", {"width": 1}]}]}),
    ]
}
