//! C40: syntax trees are built, printed and saved faithfully.
use crate::grammar::{self, app_tokens, junk, space};
use crate::ed::make_parser;
use input_tree::grid::{Grid, GridVec};
use parser::parse_modules::ParseModules;
use parser::parser::MathParser;
use parser::syntax_tree::*;
use serde_json::{json, Value};
use vcommon::*;

/// A syntax tree as it has to come back.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Kd {
    Rows(usize, Vec<Nd>),
    Kids(Vec<Nd>),
    Leaf(bool, Vec<String>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Nd {
    name: u32,
    kids: Kd,
    value: Vec<u8>,
    range: (usize, usize),
}
fn seen(n: &SyntaxNode) -> Nd {
    let kids = match &n.children {
        SyntaxNodeChildren::NewRows(g) => Kd::Rows(g.width(), g.values().map(seen).collect()),
        SyntaxNodeChildren::Children(c) => Kd::Kids(c.iter().map(seen).collect()),
        SyntaxNodeChildren::Leaf(l) => Kd::Leaf(l.node_type == LeafNodeType::Operator, l.symbols.clone()),
    };
    let name = serde_json::to_value(n.name).unwrap().as_u64().unwrap() as u32;
    Nd { name, kids, value: n.value.clone(), range: (n.range().start, n.range().end) }
}
fn build(n: &Nd) -> SyntaxNode {
    let b = match &n.kids {
        Kd::Leaf(op, s) => SyntaxNodeBuilder::new_leaf_node(s.clone(), if *op { LeafNodeType::Operator } else { LeafNodeType::Symbol }),
        Kd::Kids(c) => SyntaxNodeBuilder::new(SyntaxNodeChildren::Children(c.iter().map(build).collect())),
        Kd::Rows(w, c) => SyntaxNodeBuilder::new(SyntaxNodeChildren::NewRows(GridVec::from_one_dimensional(c.iter().map(build).collect(), *w))),
    };
    b.set_value(n.value.clone()).build(SyntaxNodeNameId::new(n.name), n.range.0..n.range.1)
}
/// What the printed form says.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Pk {
    None,
    Rows(usize, usize, Vec<Pr>),
    Kids(Vec<Pr>),
    Leaf(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Pr {
    name: String,
    kids: Pk,
    value: Vec<u8>,
}
fn printed(n: &Nd, names: &SyntaxNodeNameMap) -> Pr {
    let name = names.get_reverse(SyntaxNodeNameId::new(n.name)).map(|p| p.to_string()).unwrap_or_else(|| format!("<unknown {}>", n.name));
    let kids = match &n.kids {
        Kd::Leaf(_, s) => Pk::Leaf(s.concat()),
        Kd::Kids(c) if c.is_empty() => Pk::None,
        Kd::Kids(c) => Pk::Kids(c.iter().map(|c| printed(c, names)).collect()),
        Kd::Rows(w, c) => Pk::Rows(*w, c.len() / w, c.iter().map(|c| printed(c, names)).collect()),
    };
    Pr { name, kids, value: n.value.clone() }
}
/// Reads the printed form: (name [part] [hexadecimal bytes]), part = "text" | nodes | WxH nodes.
struct Reader {
    c: Vec<char>,
    i: usize,
}
impl Reader {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).cloned()
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("{c:?} expected at {}, not {:?}", self.i, self.peek()))
        }
    }
    fn while_(&mut self, f: impl Fn(char) -> bool) -> String {
        let s = self.i;
        while self.peek().map(&f).unwrap_or(false) {
            self.i += 1;
        }
        self.c[s..self.i].iter().collect()
    }
    fn nodes(&mut self) -> Result<Vec<Pr>, String> {
        let mut v = vec![self.node()?];
        while self.peek() == Some(' ') && self.c.get(self.i + 1) == Some(&'(') {
            self.i += 1;
            v.push(self.node()?);
        }
        Ok(v)
    }
    fn node(&mut self) -> Result<Pr, String> {
        self.eat('(')?;
        let name = if self.peek() == Some('<') {
            let n = self.while_(|c| c != '>');
            self.eat('>')?;
            let digits: String = n.chars().filter(|c| c.is_ascii_digit()).collect();
            format!("<unknown {digits}>")
        } else {
            self.while_(|c| c != ' ' && c != ')')
        };
        let (mut kids, mut value) = (Pk::None, vec![]);
        while self.peek() == Some(' ') {
            self.i += 1;
            match self.peek() {
                Some('(') => kids = Pk::Kids(self.nodes()?),
                Some('"') => {
                    self.i += 1;
                    let mut s = String::new();
                    loop {
                        match self.peek().ok_or("unfinished text")? {
                            '"' => break,
                            '\\' => {
                                self.i += 1;
                                s.push(self.peek().ok_or("unfinished text")?);
                            }
                            c => s.push(c),
                        }
                        self.i += 1;
                    }
                    self.i += 1;
                    kids = Pk::Leaf(s);
                }
                _ => {
                    let w = self.while_(|c| c.is_ascii_hexdigit());
                    if self.peek() == Some('x') {
                        self.i += 1;
                        let h = self.while_(|c| c.is_ascii_digit());
                        self.eat(' ')?;
                        let n = self.nodes()?;
                        kids = Pk::Rows(w.parse().map_err(|_| "width")?, h.parse().map_err(|_| "height")?, n);
                    } else {
                        if w.is_empty() || w.len() % 2 != 0 || !value.is_empty() {
                            return Err(format!("unreadable at {}", self.i));
                        }
                        value = (0..w.len() / 2).map(|k| u8::from_str_radix(&w[2 * k..2 * k + 2], 16).unwrap()).collect();
                    }
                }
            }
        }
        self.eat(')')?;
        Ok(Pr { name, kids, value })
    }
}
fn saved(n: &Nd) -> Value {
    let kids = match &n.kids {
        Kd::Leaf(op, s) => json!({"Leaf": {"node_type": if *op { "Operator" } else { "Symbol" }, "symbols": s}}),
        Kd::Kids(c) => json!({"Children": c.iter().map(saved).collect::<Vec<_>>()}),
        Kd::Rows(w, c) => json!({"NewRows": {"values": c.iter().map(saved).collect::<Vec<_>>(), "width": w}}),
    };
    json!({"name": n.name, "children": kids, "value": n.value, "range": {"start": n.range.0, "end": n.range.1}})
}
/// Prints and saves a tree, and reads both again.
fn judge(t: &SyntaxNode, want: &Nd, names: &SyntaxNodeNameMap, l: &mut Local) {
    l.transitions += 2;
    let text = match guard(|| t.with_display(names).to_string()) {
        Err(e) => return l.fail("print", format!("{want:?}: {e}")),
        Ok(t) => t,
    };
    let mut r = Reader { c: text.chars().collect(), i: 0 };
    let got = r.node().and_then(|n| if r.i == r.c.len() { Ok(n) } else { Err(format!("more behind {}", r.i)) });
    if got.as_ref() != Ok(&printed(want, names)) {
        return l.fail("print", format!("{want:?} is printed as {text}, which says {got:?}"));
    }
    let json = match guard(|| serde_json::to_string(t).map_err(|e| e.to_string())) {
        Ok(Ok(s)) => s,
        e => return l.fail("save", format!("{want:?}: {:?}", e.map_err(|e| e.msg))),
    };
    if serde_json::from_str::<Value>(&json).ok() != Some(saved(want)) {
        return l.fail("save", format!("{want:?} is saved as {json}, should be {}", saved(want)));
    }
    match guard(|| serde_json::from_str::<SyntaxNode>(&json).map_err(|e| e.to_string())) {
        Ok(Ok(back)) if seen(&back) == *want => (),
        e => l.fail("save", format!("{json} is read back as {:?}", e.map(|r| r.map(|n| seen(&n))).map_err(|e| e.msg))),
    }
}

const TEXTS: &[&[&str]] = &[&["a"], &["\""], &["\\"], &["\\", "\""], &["a", "b"], &[" "], &["(", ")"], &["𝔸b́"], &["2x1"], &["\n"], &["ab", ""], &[]];
/// Every tree with at most `size` nodes whose first covered place is `at`.
fn all(size: usize, at: usize, names: &[u32], texts: &[&[&str]], values: &[&[u8]]) -> Vec<Nd> {
    if size == 0 {
        return vec![];
    }
    let mut kinds: Vec<(Kd, usize)> = vec![];
    for (k, t) in texts.iter().enumerate() {
        kinds.push((Kd::Leaf(k % 2 == 1, t.iter().map(|s| s.to_string()).collect()), at + 1));
    }
    for c in lists(size - 1, at, names, texts, values, true) {
        let end = c.last().map(|n| n.range.1).unwrap_or(at);
        kinds.push((Kd::Kids(c), end));
    }
    for c in lists(size - 1, 0, names, texts, values, false) {
        for w in 1..=c.len() {
            if c.len() % w == 0 {
                kinds.push((Kd::Rows(w, c.clone()), at + 1));
            }
        }
    }
    let mut out = vec![];
    for (k, end) in kinds {
        for n in names {
            for v in values {
                out.push(Nd { name: *n, kids: k.clone(), value: v.to_vec(), range: (at, end) });
            }
        }
    }
    out
}
fn count(n: &Nd) -> usize {
    1 + match &n.kids {
        Kd::Leaf(..) => 0,
        Kd::Kids(c) | Kd::Rows(_, c) => c.iter().map(count).sum(),
    }
}
/// Every list of trees with at most `size` nodes in total; side by side, or each starting a row.
fn lists(size: usize, at: usize, names: &[u32], texts: &[&[&str]], values: &[&[u8]], contiguous: bool) -> Vec<Vec<Nd>> {
    let mut out = vec![vec![]];
    if size == 0 {
        return out;
    }
    for first in all(size, at, names, texts, values) {
        let next = if contiguous { first.range.1 } else { 0 };
        for rest in lists(size - count(&first), next, names, texts, values, contiguous) {
            out.push([vec![first.clone()], rest].concat());
        }
    }
    out
}

pub fn c40(ctx: &Ctx) {
    // 1. every small tree
    let names_of = || {
        let mut m = SyntaxNodeNameMap::new();
        for n in ["A", "B"] {
            m.add(PathIdentifier::new(vec!["N".into(), n.into()]));
        }
        m
    };
    let values: &[&[u8]] = &[&[], &[0], &[0x0a, 0xff, 0x10]];
    let mut trees = all(2, 0, &[0, 1, 7], TEXTS, values);
    trees.extend(all(3, 2, &[0, 7], &TEXTS[..4], &values[..2]));
    trees.extend(all(4, 0, &[0], &TEXTS[..ctx.pick(2, 4)], &values[1..ctx.pick(2, 3)]));
    trees.extend(all(ctx.pick(5, 7), 0, &[1], &TEXTS[1..2], &values[..1]));
    ctx.run("small trees", &trees, |t| json!(format!("{t:?}")), names_of, |names, t, l| {
        l.states += 1;
        l.traces += 1;
        match guard(|| build(t)) {
            Err(e) => l.fail("build", format!("{t:?}: {e}")),
            Ok(n) => {
                if seen(&n) != *t {
                    return l.fail("build", format!("{t:?} is built as {:?}", seen(&n)));
                }
                judge(&n, t, names, l)
            }
        }
    });
    // 2. what the parser produces
    let mut tokens = app_tokens();
    tokens.extend([space(), junk("?"), junk("\""), junk("\\"), junk("π́")]);
    let mut rows: Vec<Row> = vec![vec![]];
    for a in &tokens {
        rows.push(a.nodes.clone());
        for b in &tokens {
            rows.push([a.nodes.clone(), b.nodes.clone()].concat());
            if ctx.thorough() {
                for c in &tokens {
                    rows.push([a.nodes.clone(), b.nodes.clone(), c.nodes.clone()].concat());
                }
            }
        }
    }
    rows.extend(all_trees(ctx.pick(4, 5), ALL_KINDS));
    rows.extend(["\" a \\ \" b \"", "\" \\ \\ \"", "\" ( ) \""].iter().map(|s| s.split(' ').map(sym).collect::<Row>()));
    rows.extend(families(4, 3, 2));
    let rows = union(vec![rows]);
    ctx.run("parsed formulas", &rows, row_json, make_parser, |p: &mut (MathParser, ParseModules), row, l| {
        l.states += 1;
        l.traces += 1;
        let real = nodes_to_real(row);
        match guard(|| p.0.parse(&real)) {
            Err(e) => l.fail("print", format!("{}: {e}", show(row))),
            Ok(t) => judge(&t, &seen(&t), grammar::names(&p.1), l),
        }
    });
    // 3. only consistent trees can be built
    let top = ctx.pick(3, 4);
    let ranges: Vec<(usize, usize)> = (0..=top).flat_map(|a| (a..=top).map(move |b| (a, b))).collect();
    let leaf = |r: &(usize, usize)| Nd { name: 0, kids: Kd::Leaf(false, vec!["a".into()]), value: vec![], range: *r };
    ctx.run("every range of a node and its children", &ranges, |r| json!(r), || (), |_, range, l| {
        l.traces += 1;
        let mut lists: Vec<Vec<(usize, usize)>> = vec![vec![]];
        let mut i = 0;
        while i < lists.len() {
            if lists[i].len() < 3 {
                for r in &ranges {
                    let next = [lists[i].clone(), vec![*r]].concat();
                    lists.push(next);
                }
            }
            i += 1;
        }
        for c in &lists {
            for depth in 0..2 {
                l.states += 1;
                l.transitions += 1;
                let fits = c.windows(2).all(|w| w[0].1 == w[1].0) && c.first().map(|f| range.0 <= f.0).unwrap_or(true) && c.last().map(|f| f.1 <= range.1).unwrap_or(true);
                let mut n = Nd { name: 0, kids: Kd::Kids(c.iter().map(leaf).collect()), value: vec![], range: *range };
                if depth == 1 {
                    n = Nd { name: 1, kids: Kd::Rows(1, vec![n.clone()]), value: vec![], range: (0, 1) };
                }
                let built = guard(|| build(&n)).is_ok();
                if built != fits {
                    return l.fail("build", format!("a node over {range:?} with children over {c:?} is {}", if built { "built, although they do not follow each other inside of it" } else { "refused" }));
                }
            }
        }
    });
}
