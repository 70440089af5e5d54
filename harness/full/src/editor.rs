//! C14..C21, C33, C34: the editor, explored command by command on the real MathEditor.
use crate::ed::*;
use parser::autocomplete::AutocompleteRule;
use parser::parse_module::ParseModule;
use parser::parser::MathParser;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::rc::Rc;
use vcommon::*;

pub fn p_init() -> Rc<MathParser> {
    Rc::new(make_parser().0)
}
fn trees(ctx: &Ctx, quick: (usize, usize, usize), thorough: (usize, usize, usize), fam: bool) -> Vec<Row> {
    let (all, core, small) = ctx.pick(quick, thorough);
    let mut parts = if fam { vec![large(), alike(ctx.pick(3, 4))] } else { vec![] };
    parts.extend([all_trees(all, ALL_KINDS), all_trees(core, CORE_KINDS), all_trees(small, SMALL_KINDS)]);
    if fam {
        parts.push(ctx.pick(families(10, 5, 3), families(16, 7, 4)));
    }
    union(parts)
}

// ---------------------------------------------------------------- reference movement

/// The neighbouring caret position in reading order.
pub fn horizontal(ps: &[Pos], p: &Pos, right: bool) -> Option<Pos> {
    let i = ps.iter().position(|q| q == p).expect("valid position");
    if right {
        ps.get(i + 1).cloned()
    } else {
        i.checked_sub(1).map(|i| ps[i].clone())
    }
}
/// Looks at the enclosing containers from the inside out.
pub fn vertical(tree: &Row, p: &Pos, up: bool) -> Option<Pos> {
    for k in (0..p.path.len()).rev() {
        let (i, c) = p.path[k];
        let outer = &p.path[..k];
        let N::C(v, w, cells) = &row_at(tree, outer).unwrap()[i] else { unreachable!() };
        if (*v == V::Sup && up) || (*v == V::Sub && !up) {
            return Some(pos(outer, i));
        }
        let target = if up { c.checked_sub(*w) } else { Some(c + w) };
        if let Some(t) = target {
            if t < cells.len() {
                let mut path = outer.to_vec();
                path.push((i, t));
                let off = if up { cells[t].len() } else { 0 };
                return Some(Pos { path, off });
            }
        }
    }
    None
}
pub fn step(tree: &Row, ps: &[Pos], p: &Pos, d: Dir) -> Option<Pos> {
    match d {
        Dir::L => horizontal(ps, p, false),
        Dir::R => horizontal(ps, p, true),
        Dir::U => vertical(tree, p, true),
        Dir::D => vertical(tree, p, false),
    }
}
/// What selecting from a to b has to show.
pub fn selection(tree: &Row, rs: &[Path], ps: &[Pos], a: &Pos, b: &Pos) -> Sel {
    let (path, lo, hi) = minimal_cover(tree, rs, a, b);
    if hi - lo == 1 && a.path.len() > path.len() && b.path.len() > path.len() {
        if let N::C(V::Table, w, _) = &row_at(tree, &path).unwrap()[lo] {
            let (c1, c2) = (a.path[path.len()].1, b.path[path.len()].1);
            let (x1, y1, x2, y2) = (c1 % w, c1 / w, c2 % w, c2 / w);
            return Sel::Grid(path, lo, (x1.min(x2), y1.min(y2)), (x1.max(x2), y1.max(y2)));
        }
    }
    let (i, j) = (ps.iter().position(|q| q == a), ps.iter().position(|q| q == b));
    if i <= j {
        Sel::Row(path, lo, hi)
    } else {
        Sel::Row(path, hi, lo)
    }
}

// ---------------------------------------------------------------- where a position lies relative to every node

/// before (-1), after (1), or inside (0, cell) of every node
fn classify(t: &[T], p: &Pos) -> BTreeMap<u32, (i8, usize)> {
    fn all(t: &[T], v: i8, out: &mut BTreeMap<u32, (i8, usize)>) {
        for n in t {
            out.insert(n.id, (v, 0));
            for c in &n.cells {
                all(c, v, out);
            }
        }
    }
    fn go(t: &[T], path: &[(usize, usize)], off: usize, out: &mut BTreeMap<u32, (i8, usize)>) {
        let (at, inside) = match path.first() {
            None => (off, None),
            Some((i, c)) => (*i, Some(*c)),
        };
        all(&t[..at], -1, out);
        match inside {
            None => all(&t[at..], 1, out),
            Some(c) => {
                out.insert(t[at].id, (0, c));
                for (k, cell) in t[at].cells.iter().enumerate() {
                    if k == c {
                        go(cell, &path[1..], off, out);
                    } else {
                        all(cell, if k < c { -1 } else { 1 }, out);
                    }
                }
                all(&t[at + 1..], 1, out);
            }
        }
    }
    let mut out = BTreeMap::new();
    go(t, &p.path, p.off, &mut out);
    out
}
/// Does `q` lie in `after` relative to the nodes of both formulas as `p` lies in `before`?
pub fn same_place(before: &[T], p: &Pos, after: &[T], q: &Pos) -> bool {
    let (a, b) = (classify(before, p), classify(after, q));
    a.iter().all(|(id, v)| b.get(id).map(|w| w == v).unwrap_or(true))
}
fn strip(t: &[T], r: &Row) -> bool {
    // structural consistency of a tagged copy with a formula
    t.len() == r.len() && t.iter().zip(r).all(|(a, b)| a.cells.len() == b.cells().len() && a.cells.iter().zip(b.cells()).all(|(x, y)| strip(x, y)))
}

// ---------------------------------------------------------------- C14, C15

fn moves(ctx: &Ctx, dirs: &'static [Dir], key: &'static str) {
    let cases = union(vec![huge(), trees(ctx, (3, 4, 6), (4, 5, 7), true)]);
    ctx.run("every position, every direction", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let mut ed = Ed::new(parser, tree);
        for p in &ps {
            for d in dirs {
                l.transitions += 1;
                let want = step(tree, &ps, p, *d).unwrap_or_else(|| p.clone());
                let got = guard(|| {
                    ed.put(p);
                    ed.mv(*d);
                    ed.snap()
                });
                match got {
                    Err(e) => return l.fail(key, format!("{d:?} at {p:?}: {e}")),
                    Ok(s) => {
                        if s.sel != Sel::at(&want) {
                            return l.fail(key, format!("{d:?} at {p:?} goes to {:?}, should go to {want:?}", s.sel));
                        }
                        if s.tree != *tree {
                            return l.fail(key, format!("{d:?} at {p:?} changed the formula to {}", show(&s.tree)));
                        }
                    }
                }
            }
        }
    });
    let cases = union(vec![huge(), large(), alike(2), trees(ctx, (2, 3, 4), (3, 4, 5), false)]);
    ctx.run("every row selection, every direction", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        let mut ed = Ed::new(parser, tree);
        let ends = chosen(tree, &ps);
        for a in &ends {
            for b in &ends {
                let s = selection(tree, &rs, &ps, a, b);
                let Some((left, right)) = s.edges() else { continue };
                if left == right {
                    continue;
                }
                for d in dirs {
                    l.transitions += 1;
                    let edge = if matches!(d, Dir::L | Dir::U) { &left } else { &right };
                    let want = step(tree, &ps, edge, *d).unwrap_or_else(|| edge.clone());
                    let got = guard(|| {
                        ed.select(a, b);
                        ed.mv(*d);
                        ed.snap()
                    });
                    match got {
                        Err(e) => return l.fail(key, format!("{d:?} with {a:?}..{b:?} selected: {e}")),
                        Ok(s) => {
                            if s.sel != Sel::at(&want) || s.tree != *tree {
                                return l.fail(key, format!("{d:?} with {a:?}..{b:?} selected goes to {:?}, should go to {want:?}", s.sel));
                            }
                        }
                    }
                }
            }
        }
    });
}
pub fn c14(ctx: &Ctx) {
    moves(ctx, &[Dir::L, Dir::R], "horizontal");
    let cases = union(vec![huge(), trees(ctx, (3, 4, 6), (4, 5, 7), true)]);
    ctx.run("walking through the whole formula", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let mut ed = Ed::new(parser, tree);
        for right in [true, false] {
            let r = guard(|| {
                ed.put(if right { &ps[0] } else { ps.last().unwrap() });
                let mut seen = vec![ed.sel()];
                for _ in 0..ps.len() + 1 {
                    ed.mv(if right { Dir::R } else { Dir::L });
                    seen.push(ed.sel());
                }
                seen
            });
            let mut want: Vec<Sel> = ps.iter().map(Sel::at).collect();
            if !right {
                want.reverse();
            }
            let last = want.last().unwrap().clone();
            want.extend([last.clone(), last]);
            l.transitions += want.len() as u64;
            match r {
                Err(e) => return l.fail("walk", format!("{e}")),
                Ok(got) => {
                    if got != want {
                        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap();
                        return l.fail("walk", format!("step {i} to the {} lands on {:?}, should be {:?}", if right { "right" } else { "left" }, got[i], want[i]));
                    }
                }
            }
        }
    });
}
pub fn c15(ctx: &Ctx) {
    moves(ctx, &[Dir::U, Dir::D], "vertical");
}

// ---------------------------------------------------------------- C16

pub fn c16(ctx: &Ctx) {
    let cases = union(vec![huge(), trees(ctx, (3, 4, 5), (4, 5, 6), true)]);
    ctx.run("every pair of ends, select all", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        let mut ed = Ed::new(parser, tree);
        let ends = chosen(tree, &ps);
        for a in &ends {
            for b in &ends {
                l.transitions += 1;
                let want = selection(tree, &rs, &ps, a, b);
                match guard(|| {
                    ed.select(a, b);
                    ed.snap()
                }) {
                    Err(e) => return l.fail("select", format!("{a:?} to {b:?}: {e}")),
                    Ok(s) => {
                        if s.sel != want || s.tree != *tree {
                            return l.fail("select", format!("selecting {a:?} to {b:?} shows {:?}, should show {want:?}", s.sel));
                        }
                    }
                }
                l.count(if want.is_grid() { "table selections" } else { "row selections" }, 1);
                if b == a {
                    match guard(|| {
                        ed.e.select_all();
                        ed.snap()
                    }) {
                        Err(e) => return l.fail("select-all", format!("{e}")),
                        Ok(s) => {
                            if s.sel != Sel::Row(vec![], 0, tree.len()) || s.tree != *tree {
                                return l.fail("select-all", format!("select all at {a:?} shows {:?}", s.sel));
                            }
                        }
                    }
                }
            }
        }
    });
    let cases = union(vec![large(), alike(2), trees(ctx, (2, 3, 4), (3, 4, 5), false)]);
    ctx.run("changing the end of a selection", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        let mut ed = Ed::new(parser, tree);
        for a in &ps {
            for b in &ps {
                // drag on to a third position: only the fixed end and the new end count
                for c in &ps {
                    l.transitions += 1;
                    let want = selection(tree, &rs, &ps, a, c);
                    match guard(|| {
                        ed.select(a, b);
                        ed.e.extend_selection(pos_to_real(c));
                        ed.sel()
                    }) {
                        Err(e) => return l.fail("extend", format!("{a:?} to {b:?} to {c:?}: {e}")),
                        Ok(s) => {
                            if s != want {
                                return l.fail("extend", format!("dragging from {a:?} over {b:?} to {c:?} shows {s:?}, should show {want:?}"));
                            }
                        }
                    }
                }
                // with the keyboard: the visible end moves on by one step
                let Sel::Row(path, _, end) = selection(tree, &rs, &ps, a, b) else { continue };
                let end = pos(&path, end);
                for d in [Dir::L, Dir::R, Dir::U, Dir::D] {
                    l.transitions += 1;
                    let want = match step(tree, &ps, &end, d) {
                        Some(e) => selection(tree, &rs, &ps, a, &e),
                        None => selection(tree, &rs, &ps, a, b),
                    };
                    match guard(|| {
                        ed.select(a, b);
                        ed.shift(d);
                        ed.snap()
                    }) {
                        Err(e) => return l.fail("shift", format!("{a:?} to {b:?}, then {d:?}: {e}")),
                        Ok(s) => {
                            if s.sel != want || s.tree != *tree {
                                return l.fail("shift", format!("with {a:?} to {b:?} selected, extending {d:?} shows {:?}, should show {want:?}", s.sel));
                            }
                        }
                    }
                }
            }
        }
    });
    crate::api::caret_ends(ctx, &union(vec![large(), alike(2), trees(ctx, (2, 3, 3), (3, 4, 4), false)]));
}

// ---------------------------------------------------------------- C17

/// The formula with one container replaced by the content of its cells, in order.
fn dissolve(tree: &Row, t: &[T], path: &Path, i: usize) -> (Row, Vec<T>) {
    let mut r = tree.clone();
    let row = row_at_mut(&mut r, path).unwrap();
    let inner: Row = row[i].cells().concat();
    row.splice(i..i + 1, inner);
    let mut t = t.to_vec();
    let row = t_row_mut(&mut t, path);
    let inner: Vec<T> = row[i].cells.concat();
    row.splice(i..i + 1, inner);
    (r, t)
}
fn without(tree: &Row, t: &[T], path: &Path, lo: usize, hi: usize) -> (Row, Vec<T>) {
    let mut r = tree.clone();
    row_at_mut(&mut r, path).unwrap().drain(lo..hi);
    let mut t = t.to_vec();
    t_row_mut(&mut t, path).drain(lo..hi);
    (r, t)
}
fn has_table(r: &Row) -> bool {
    r.iter().any(|n| matches!(n, N::C(V::Table, ..)) || n.cells().iter().any(has_table))
}

/// Judges one press of Backspace (left) or Delete at a caret.
fn judge_delete(tree: &Row, ps: &[Pos], p: &Pos, left: bool, got: &Snap) -> Result<&'static str, String> {
    let tagged_tree = tagged(tree, &mut 0);
    let row = row_at(tree, &p.path).unwrap();
    let adj = if left { p.off.checked_sub(1) } else { (p.off < row.len()).then_some(p.off) };
    let name = if left { "Backspace" } else { "Delete" };
    let Some(q) = got.sel.caret() else { return Err(format!("{name} at {p:?} leaves a selection {:?}", got.sel)) };
    if !valid_pos(&got.tree, &q) {
        return Err(format!("{name} at {p:?} leaves the caret at {q:?}, which does not exist in {}", show(&got.tree)));
    }
    let place = |cand: &(Row, Vec<T>)| got.tree == cand.0 && strip(&cand.1, &cand.0) && same_place(&tagged_tree, p, &cand.1, &q);
    if let Some(i) = adj {
        if row[i].is_sym() {
            let cand = without(tree, &tagged_tree, &p.path, i, i + 1);
            if place(&cand) {
                return Ok("removed a symbol");
            }
            return Err(format!("{name} at {p:?} next to a symbol gives {} with the caret at {q:?}", show(&got.tree)));
        }
        if place(&dissolve(tree, &tagged_tree, &p.path, i)) {
            return Ok("dissolved the adjacent container");
        }
    } else if let Some(((i, _), outer)) = p.path.split_last() {
        if place(&dissolve(tree, &tagged_tree, &outer.to_vec(), *i)) {
            return Ok("dissolved the surrounding container");
        }
    }
    if got.tree == *tree {
        let want = horizontal(ps, p, !left).unwrap_or_else(|| p.clone());
        if q == want {
            return Ok("moved the caret");
        }
        return Err(format!("{name} at {p:?} changes nothing and puts the caret at {q:?} instead of {want:?}"));
    }
    Err(format!("{name} at {p:?} gives {} with the caret at {q:?}", show(&got.tree)))
}

pub fn c17(ctx: &Ctx) {
    let cases = union(vec![huge(), trees(ctx, (3, 4, 6), (4, 5, 7), true)]);
    ctx.run("Backspace and Delete at every position", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        for p in &ps {
            for left in [true, false] {
                l.transitions += 1;
                let r = guard(|| {
                    let mut ed = Ed::new(parser, tree);
                    ed.put(p);
                    if left {
                        ed.backspace()
                    } else {
                        ed.delete()
                    }
                    ed.snap()
                });
                match r {
                    Err(e) => return l.fail("delete", format!("at {p:?}, left {left}: {e}")),
                    Ok(s) => match judge_delete(tree, &ps, p, left, &s) {
                        Err(m) => return l.fail("delete", m),
                        Ok(k) => l.count(k, 1),
                    },
                }
            }
        }
    });
    let cases = union(vec![huge(), large(), alike(2), trees(ctx, (2, 3, 4), (3, 4, 5), false)]);
    ctx.run("deleting every row selection", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        let t = tagged(tree, &mut 0);
        let ends = chosen(tree, &ps);
        for a in &ends {
            for b in &ends {
                let s = selection(tree, &rs, &ps, a, b);
                let Some((left, right)) = s.edges() else { continue };
                if left == right {
                    continue;
                }
                for how in 0..3 {
                    l.transitions += 1;
                    let r = guard(|| {
                        let mut ed = Ed::new(parser, tree);
                        ed.select(a, b);
                        match how {
                            0 => ed.backspace(),
                            1 => ed.delete(),
                            _ => ed.remove_range(),
                        }
                        ed.snap()
                    });
                    let want = without(tree, &t, &left.path, left.off, right.off);
                    match r {
                        Err(e) => return l.fail("delete-selection", format!("{a:?} to {b:?}: {e}")),
                        Ok(g) => {
                            if g.tree != want.0 || g.sel != Sel::at(&left) {
                                return l.fail("delete-selection", format!("deleting the selection {s:?} gives {} with the caret at {:?}", show(&g.tree), g.sel));
                            }
                        }
                    }
                }
            }
        }
    });
    let cases: Vec<Row> = trees(ctx, (4, 4, 6), (4, 5, 7), true).into_iter().filter(|t| !has_table(t)).collect();
    ctx.run("Backspace from the end until nothing is left", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let r: Result<Result<u64, String>, PanicInfo> = guard(|| {
            let mut ed = Ed::new(parser, tree);
            ed.put(&pos(&[], tree.len()));
            let bound = 4 * (row_weight(tree) + positions(tree).len()) + 4;
            let mut n = 0;
            let mut before = ed.snap();
            while !before.tree.is_empty() {
                let Some(p) = before.sel.caret() else { return Err("caret is a selection".to_string()) };
                ed.backspace();
                n += 1;
                let after = ed.snap();
                judge_delete(&before.tree, &positions(&before.tree), &p, true, &after)?;
                if n > bound {
                    return Err(format!("after {n} presses the formula is still {} with the caret at {:?}", show(&after.tree), after.sel));
                }
                before = after;
            }
            Ok(n as u64)
        });
        match r {
            Err(e) => l.fail("backspace-all", format!("{e}")),
            Ok(Err(m)) => l.fail("backspace-all", m),
            Ok(Ok(n)) => l.transitions += n,
        }
    });
}

// ---------------------------------------------------------------- commands

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Move(Dir),
    Shift(Dir),
    Type(&'static [&'static str]),
    Backspace,
    Delete,
    RemoveRange,
    Undo,
    Redo,
    SelectAll,
    Copy,
    Paste(&'static str),
    PasteCopied,
    /// caret to the position at k/4 of the formula, in reading order
    Put(usize),
    Drag(usize),
    Finish,
    Open,
    Accept,
    Dismiss,
    Pick(bool),
    /// replaces (row number k, first node or nothing) by fixed nodes
    Splice(usize),
    Syntax,
}
const DOC_FRAC: &str = r#"{"version":1,"data":[{"Container":["Fraction",{"values":[{"values":[{"Symbol":"p"}]},{"values":[]}],"width":1}]},{"Symbol":"q"}]}"#;
const DOC_BAD: &str = r#"{"version":1,"data":[{"Symbol":1}]}"#;

/// Runs one command. The clipboard is kept outside of the editor.
pub fn run_cmd(ed: &mut Ed, clip: &mut Option<String>, c: &Cmd) {
    match c {
        Cmd::Move(d) => ed.mv(*d),
        Cmd::Shift(d) => ed.shift(*d),
        Cmd::Type(s) => ed.typed(s),
        Cmd::Backspace => ed.backspace(),
        Cmd::Delete => ed.delete(),
        Cmd::RemoveRange => ed.remove_range(),
        Cmd::Undo => {
            ed.e.undo();
        }
        Cmd::Redo => {
            ed.e.redo();
        }
        Cmd::SelectAll => ed.e.select_all(),
        Cmd::Copy => {
            *clip = ed.copy().ok();
        }
        Cmd::Paste(d) => {
            ed.paste(d).ok();
        }
        Cmd::PasteCopied => {
            if let Some(c) = clip {
                ed.paste(c).ok();
            }
        }
        Cmd::Put(k) => {
            let ps = positions(&ed.tree());
            ed.put(&ps[(ps.len() - 1) * k / 4]);
        }
        Cmd::Drag(k) => {
            let ps = positions(&ed.tree());
            ed.e.extend_selection(pos_to_real(&ps[(ps.len() - 1) * k / 4]));
        }
        Cmd::Finish => ed.e.finish_selection(),
        Cmd::Open => {
            ed.e.open_autocomplete();
        }
        Cmd::Accept => {
            ed.e.finish_autocomplete(true);
        }
        Cmd::Dismiss => {
            ed.e.finish_autocomplete(false);
        }
        Cmd::Pick(d) => ed.pick_completion(*d),
        Cmd::Splice(k) => {
            let t = ed.tree();
            let rs = rows(&t);
            let path = rs[(rs.len() - 1) * k / 2].clone();
            let n = row_at(&t, &path).unwrap().len();
            let r = match k {
                0 => (path, 0, n),
                1 => (path, n, n),
                _ => (path, n, 0),
            };
            ed.splice(&r, &vec![sym("w"), N::C(V::Sup, 1, vec![vec![]])]);
        }
        Cmd::Syntax => {
            ed.syntax();
        }
    }
}
fn name(c: &Cmd) -> &'static str {
    match c {
        Cmd::Shift(_) => "shift",
        Cmd::Type(_) => "type",
        Cmd::Backspace | Cmd::Delete | Cmd::RemoveRange => "delete",
        Cmd::Copy => "copy",
        Cmd::Paste(_) | Cmd::PasteCopied => "paste",
        _ => "other",
    }
}

/// Formulas for command sequences: unlike the structural checks these contain symbols that mean something.
fn start_formulas(ctx: &Ctx) -> Vec<Row> {
    let s = |t: &str| -> Row { t.split(' ').filter(|x| !x.is_empty()).map(sym).collect() };
    let f = |a: Row, b: Row| N::C(V::Frac, 1, vec![a, b]);
    let mut v: Vec<Row> = vec![
        vec![],
        s("a"),
        s("a + b"),
        s("1 > ="),
        s("> ="),
        s("l i m s"),
        s("s u m"),
        s("x s q r t"),
        s("("),
        s("f ( a )"),
        s("\" a \\"),
        s("a \u{301}"),
        vec![f(s("a"), s("b"))],
        vec![f(vec![], vec![])],
        vec![sym("x"), f(s("a"), vec![]), sym("y")],
        vec![sym("x"), N::C(V::Sup, 1, vec![s("2")])],
        vec![sym("x"), N::C(V::Sub, 1, vec![s("i")]), N::C(V::Sup, 1, vec![vec![]])],
        vec![N::C(V::Root, 2, vec![vec![], s("a")])],
        vec![N::C(V::Table, 1, vec![vec![]])],
        vec![N::C(V::Table, 2, vec![s("a"), vec![], s("> ="), s("d")])],
        vec![sym("m"), N::C(V::Table, 2, vec![s("a"), s("b")]), sym("n")],
        vec![N::C(V::Table, 1, vec![s("a"), s("b")])],
        vec![f(vec![f(s("a"), s("> ="))], s("b"))],
        vec![f(vec![N::C(V::Table, 2, vec![s("a"), s("b"), s("c"), vec![f(s("d"), vec![])]])], s("s u m"))],
        vec![N::C(V::Sup, 1, vec![vec![N::C(V::Sup, 1, vec![s("a")])]])],
    ];
    if ctx.thorough() {
        v.extend(all_trees(2, ALL_KINDS));
        v.extend(all_trees(3, SMALL_KINDS));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| seen.insert(t.clone()));
    v
}
fn all_cmds() -> Vec<Cmd> {
    use Cmd::*;
    let mut v = vec![];
    for d in [Dir::L, Dir::R, Dir::U, Dir::D] {
        v.push(Move(d));
        v.push(Shift(d));
    }
    v.extend([
        Type(&["a"]),
        Type(&["="]),
        Type(&["s", "u", "m"]),
        Type(&[]),
        Backspace,
        Delete,
        RemoveRange,
        Undo,
        Redo,
        SelectAll,
        Copy,
        Paste(DOC_FRAC),
        Paste(DOC_BAD),
        PasteCopied,
        Put(0),
        Put(2),
        Put(3),
        Put(4),
        Drag(1),
        Drag(2),
        Drag(4),
        Finish,
        Open,
        Accept,
        Dismiss,
        Pick(true),
        Pick(false),
        Splice(0),
        Splice(1),
        Splice(2),
        Syntax,
    ]);
    v
}

/// All command sequences of length `depth` over `cmds` after `prefix`; `visit` judges each one (the commands before the last
/// have been judged already) and says whether to go on from there.
pub fn sequences(cmds: &[Cmd], prefix: &mut Vec<Cmd>, depth: usize, visit: &mut dyn FnMut(&[Cmd]) -> bool) {
    if prefix.len() >= depth {
        return;
    }
    for c in cmds {
        prefix.push(c.clone());
        if visit(prefix) {
            sequences(cmds, prefix, depth, visit);
        }
        prefix.pop();
    }
}
pub type SeqCase = (Row, Cmd);
pub fn seq_cases(trees: &[Row], cmds: &[Cmd]) -> Vec<SeqCase> {
    trees.iter().flat_map(|t| cmds.iter().map(move |c| (t.clone(), c.clone()))).collect()
}
pub fn seq_show(c: &SeqCase) -> Value {
    json!({"formula": row_json(&c.0), "first command": format!("{:?}", c.1)})
}

/// Every pattern of one to three commands, for every formula.
fn over_and_over(ctx: &Ctx, phase: &str, formulas: &[Row], cmds: &[Cmd], judge: impl Fn(&Rc<MathParser>, &Row, &[Cmd], &mut Local) + Sync) {
    let mut cases: Vec<(&Row, Vec<Cmd>)> = vec![];
    for t in formulas {
        sequences(cmds, &mut vec![], 3, &mut |s| {
            cases.push((t, s.to_vec()));
            true
        });
    }
    ctx.run(phase, &cases, |c| json!({"formula": row_json(c.0), "commands": format!("{:?}", c.1)}), p_init, |parser, (tree, pattern), l| {
        l.traces += 1;
        judge(parser, tree, pattern, l);
    });
}

// ---------------------------------------------------------------- C18

/// Runs the commands; judges the formula and caret after the last one (after every one, if `all`).
fn judge_crash(parser: &Rc<MathParser>, tree: &Row, seq: &[Cmd], all: bool, l: &mut Local) -> bool {
    let mut before_grid = false;
    let mut done = 0;
    let r = guard(|| {
        let mut ed = Ed::new(parser, tree);
        let mut clip = None;
        for (i, c) in seq.iter().enumerate() {
            let last = i + 1 == seq.len();
            if all || last {
                before_grid = ed.sel().is_grid();
            }
            run_cmd(&mut ed, &mut clip, c);
            done = i + 1;
            if all || last {
                let s = ed.snap();
                if !grids_consistent(ed.e.get_input_tree()) || !s.sel.valid(&s.tree) {
                    return Err(s);
                }
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {
            l.states += 1;
            true
        }
        Ok(Err(s)) => {
            l.fail("caret", format!("after {:?} the formula is {} and the caret {:?}", &seq[..done], show(&s.tree), s.sel));
            false
        }
        Err(e) => {
            let unimplemented = e.msg.contains("not yet implemented") || e.msg.contains("not implemented");
            let c = &seq[done.min(seq.len() - 1)];
            if before_grid && unimplemented && (all || done + 1 == seq.len()) && name(c) != "other" {
                l.fail(&format!("table-selection-{}-unimplemented", name(c)), format!("{:?}: {e}", &seq[..seq.len().min(done + 1)]));
            } else {
                l.fail("crash", format!("{:?}: {e}", &seq[..seq.len().min(done + 1)]));
            }
            false
        }
    }
}
fn crash_search(ctx: &Ctx, phase: &str, formulas: &[Row], cmds: &[Cmd], depth: usize) {
    let cases = seq_cases(formulas, cmds);
    ctx.run(phase, &cases, seq_show, p_init, |parser, (tree, first), l| {
        l.traces += 1;
        let visit = |seq: &[Cmd], l: &mut Local| -> bool {
            l.transitions += 1;
            judge_crash(parser, tree, seq, false, l)
        };
        let mut prefix = vec![first.clone()];
        if visit(&prefix, l) {
            sequences(cmds, &mut prefix, depth, &mut |s| visit(s, l));
        }
    });
}
pub fn c18(ctx: &Ctx) {
    ctx.assume("caret movement by word or line and automatic detection of the clipboard format are not offered by the editor yet and are out of scope");
    let cmds = all_cmds();
    let f = start_formulas(ctx);
    crash_search(ctx, "all sequences of commands", &f, &cmds, ctx.pick(3, 4));
    use Cmd::*;
    let core = [Move(Dir::L), Move(Dir::R), Shift(Dir::L), Shift(Dir::R), Type(&["="]), Type(&[">"]), Backspace, Delete, Undo, Redo, Put(4), Splice(2)];
    let few: Vec<Row> = f.iter().take(ctx.pick(25, 60)).cloned().collect();
    crash_search(ctx, "longer sequences of the most used commands", &few, &core, ctx.pick(5, 6));
    let mut core = core.to_vec();
    core.extend([Move(Dir::U), Move(Dir::D), Type(&["x", "y"]), Paste(DOC_FRAC), Finish, Open, Accept, Pick(true)]);
    let n = ctx.pick(40, 90);
    over_and_over(ctx, "one to three commands over and over", &few[..ctx.pick(6, 20).min(few.len())], &core, |parser, tree, pattern, l| {
        let seq: Vec<Cmd> = (0..n).map(|i| pattern[i % pattern.len()].clone()).collect();
        l.transitions += seq.len() as u64;
        judge_crash(parser, tree, &seq, true, l);
    });
}

// ---------------------------------------------------------------- C19

pub fn c19(ctx: &Ctx) {
    use Cmd::*;
    let cmds = [
        Type(&["x"]),
        Type(&["y", "z"]),
        Backspace,
        Delete,
        Move(Dir::L),
        Move(Dir::R),
        Shift(Dir::L),
        Move(Dir::D),
        Paste(DOC_FRAC),
        Splice(1),
        Put(0),
        SelectAll,
        Undo,
        Redo,
    ];
    let formulas = undo_formulas();
    undo_search(ctx, "all sequences of commands", &formulas, &cmds, ctx.pick(5, 6));
    let core = [Type(&["x"]), Backspace, Move(Dir::L), Undo, Redo];
    undo_search(ctx, "long histories", &formulas[..ctx.pick(4, 8)], &core, ctx.pick(8, 10));
    // histories with far more changes than the searches above
    let cmds = [Type(&["x"]), Type(&["y", "z"]), Backspace, Delete, Move(Dir::L), Move(Dir::D), Paste(DOC_FRAC), Splice(1), Undo, Redo];
    let n = ctx.pick(45, 140);
    over_and_over(ctx, "one to three commands over and over, then everything undone and redone", &formulas, &cmds, |parser, tree, pattern, l| {
        let mut seq: Vec<Cmd> = (0..n).map(|i| pattern[i % pattern.len()].clone()).collect();
        // stop where the pattern leaves what is judged here
        for more in [0, 2 * n, 2 * n] {
            let c = if seq.len() > n { Redo } else { Undo };
            seq.extend((0..more).map(|_| c.clone()));
            l.transitions += seq.len() as u64;
            match judge_undo(parser, tree, &seq) {
                Err(e) => return l.fail("undo", format!("{pattern:?} over and over, {} commands in all: {e}", seq.len())),
                Ok(Err(m)) => return l.fail("undo", format!("{pattern:?} over and over, {} commands in all: {m}", seq.len())),
                Ok(Ok(false)) => return,
                Ok(Ok(true)) => l.states += 1,
            }
        }
    });
    endless(ctx);
    crate::api::bare_history(ctx);
}
/// The same, for histories that go on for very long.
fn endless(ctx: &Ctx) {
    use Cmd::*;
    let patterns: [&[Cmd]; 7] = [
        &[Type(&["x"])],
        &[Type(&["x"]), Move(Dir::L)],
        &[Type(&["y", "z"]), Backspace],
        &[Type(&["x"]), Backspace, Move(Dir::L)],
        &[Type(&["x"]), Move(Dir::L), Delete],
        &[Paste(DOC_FRAC), Move(Dir::L)],
        &[Splice(1), Type(&["x"])],
    ];
    let formulas = undo_formulas();
    let mut cases: Vec<(Row, usize, usize)> = vec![];
    for f in &formulas[..ctx.pick(3, 8)] {
        for p in 0..patterns.len() {
            for n in ctx.pick(vec![70, 135, 270, 530, 1050], vec![70, 135, 270, 530, 1050, 2100]) {
                if n < 300 || p != 5 {
                    cases.push((f.clone(), p, n));
                }
            }
        }
    }
    cases.reverse(); // the long ones first
    let show = |c: &(Row, usize, usize)| json!({"formula": row_json(&c.0), "commands": format!("{:?}", patterns[c.1]), "length": c.2});
    ctx.run("histories of hundreds of changes, everything undone and redone", &cases, show, p_init, |parser, (tree, p, n), l| {
        l.traces += 1;
        let mut seq: Vec<Cmd> = (0..*n).map(|i| patterns[*p][i % patterns[*p].len()].clone()).collect();
        for c in [Undo, Redo, Undo] {
            seq.extend((0..n + 2).map(|_| c.clone()));
        }
        l.transitions += seq.len() as u64;
        match judge_undo(parser, tree, &seq) {
            Err(e) => l.fail("undo", format!("{:?} over and over, {n} times, then undone: {e}", patterns[*p])),
            Ok(Err(m)) => l.fail("undo", format!("{:?} over and over, {n} times, then undone: {m}", patterns[*p]).chars().take(2000).collect::<String>()),
            Ok(Ok(judged)) => l.states += judged as u64,
        }
    });
}
fn undo_formulas() -> Vec<Row> {
    vec![
        vec![],
        flat(2),
        vec![N::C(V::Frac, 1, vec![flat(1), flat(1)])],
        vec![sym("a"), N::C(V::Sup, 1, vec![flat(1)])],
        vec![N::C(V::Table, 2, vec![flat(1), vec![], vec![], flat(1)])],
        vec![N::C(V::Frac, 1, vec![vec![N::C(V::Root, 2, vec![vec![], flat(2)])], flat(1)])],
        vec![sym("k"), N::C(V::Frac, 1, vec![vec![], vec![]]), sym("j")],
        vec![N::C(V::Sub, 1, vec![vec![N::C(V::Frac, 1, vec![flat(1), flat(2)])]])],
    ]
    .into_iter()
    .map(|r: Row| relabel(&r))
    .collect()
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Entry {
    /// building the formula the case starts from
    Setup,
    Change,
    /// content replaced by equal content: no entry is needed
    MayBeMissing,
}
/// Ok(true): judged and right; Ok(false): the sequence leaves what is judged here.
fn judge_undo(parser: &Rc<MathParser>, tree: &Row, seq: &[Cmd]) -> Result<Result<bool, String>, PanicInfo> {
    guard(|| {
                let mut ed = Ed::new(parser, tree);
                let mut clip = None;
                // the reference: what undo and redo have to bring back
                let empty = Snap { tree: vec![], sel: Sel::Row(vec![], 0, 0) };
                // (before, after, kind of entry)
                let mut done: Vec<(Snap, Snap, Entry)> = vec![];
                if !tree.is_empty() {
                    // building the formula is itself one change of the history; its caret is checked by redo
                    done.push((empty.clone(), empty, Entry::Setup));
                }
                // after replacing something by the same content it is open whether there is anything to redo
                let mut redo_open = false;
                let mut undone: Vec<(Snap, Snap, Entry)> = vec![];
                let mut setup_after: Option<Snap> = None;
                let mut now = ed.snap();
                for c in seq.iter() {
                    if now.sel.is_grid() && name(c) != "other" {
                        return Ok(false); // not offered for table selections (see C18)
                    }
                    run_cmd(&mut ed, &mut clip, c);
                    let after = ed.snap();
                    match c {
                        Cmd::Undo => {
                            // entries of replacements by the same content may be missing
                            while let Some(d) = done.last() {
                                if d.2 != Entry::MayBeMissing || after == d.0 {
                                    break;
                                }
                                done.pop();
                            }
                            match done.pop() {
                                None => {
                                    if after != now {
                                        return Err(format!("undo with nothing left changed {now:?} to {after:?}"));
                                    }
                                }
                                Some((was, then, real)) => {
                                    if after != was {
                                        return Err(format!("undo leads to {after:?}, the formula and caret before the change were {was:?}"));
                                    }
                                    undone.push((was, then, real));
                                }
                            }
                        }
                        Cmd::Redo if redo_open => return Ok(false),
                        Cmd::Redo => match undone.pop() {
                            None => {
                                if after != now {
                                    return Err(format!("redo with nothing left changed {now:?} to {after:?}"));
                                }
                            }
                            Some((was, then, real)) => {
                                if real == Entry::Setup {
                                    if after.tree != *tree || setup_after.as_ref().map(|s| *s != after).unwrap_or(false) {
                                        return Err(format!("redo leads to {after:?} instead of the initial formula"));
                                    }
                                    setup_after = Some(after.clone());
                                } else if after != then {
                                    return Err(format!("redo leads to {after:?}, but undo took away {then:?}"));
                                }
                                done.push((was, then, real));
                            }
                        },
                        _ => {
                            if after.tree != now.tree {
                                done.push((now.clone(), after.clone(), Entry::Change));
                                undone.clear();
                                redo_open = false;
                            } else if matches!(c, Cmd::Type(_) | Cmd::Paste(_) | Cmd::PasteCopied | Cmd::Splice(_)) {
                                done.push((now.clone(), after.clone(), Entry::MayBeMissing));
                                redo_open |= !undone.is_empty();
                            }
                        }
                    }
                    now = after;
                }
                Ok(true)
            })
}
fn undo_search(ctx: &Ctx, phase: &str, formulas: &[Row], cmds: &[Cmd], depth: usize) {
    let cases = seq_cases(formulas, cmds);
    ctx.run(phase, &cases, seq_show, p_init, |parser, (tree, first), l| {
        l.traces += 1;
        let mut visit = |seq: &[Cmd], l: &mut Local| -> bool {
            l.transitions += 1;
            let r = judge_undo(parser, tree, seq);
            match r {
                Err(e) => {
                    l.fail("undo", format!("{seq:?}: {e}"));
                    false
                }
                Ok(Err(m)) => {
                    l.fail("undo", format!("{seq:?}: {m}"));
                    false
                }
                Ok(Ok(go)) => {
                    l.states += go as u64;
                    go
                }
            }
        };
        let mut prefix = vec![first.clone()];
        if visit(&prefix, l) {
            sequences(cmds, &mut prefix, depth, &mut |s| !l.failed() && visit(s, l));
        }
    });
}

// ---------------------------------------------------------------- C20

fn judge_syntax(parser: &Rc<MathParser>, fresh: &MathParser, tree: &Row, seq: &[Cmd], l: &mut Local) -> bool {
    l.transitions += 1;
    // queried: was the syntax tree asked for right before the last command?
    for queried in [false, true] {
        let r: Result<Result<bool, String>, PanicInfo> = guard(|| {
            let mut ed = Ed::new(parser, tree);
            let mut clip = None;
            let mut before = None;
            for (i, c) in seq.iter().enumerate() {
                if ed.sel().is_grid() && name(c) != "other" {
                    return Ok(false);
                }
                if i + 1 == seq.len() && queried {
                    before = Some((ed.tree(), ed.syntax()));
                }
                run_cmd(&mut ed, &mut clip, c);
            }
            let got = ed.syntax();
            let tree = ed.tree();
            let want = serde_json::to_string(&fresh.parse(&nodes_to_real(&tree))).unwrap();
            if got != want {
                return Err(format!("the formula is {}, the syntax tree is {got}, parsing the formula gives {want}", show(&tree)));
            }
            if let Some((t, s)) = before {
                if t == tree && s != got {
                    return Err(format!("the formula stayed {}, its syntax tree changed from {s} to {got}", show(&tree)));
                }
            }
            Ok(true)
        });
        match r {
            Err(e) => {
                l.fail("syntax", format!("{seq:?}: {e}"));
                return false;
            }
            Ok(Err(m)) => {
                l.fail("syntax", format!("{seq:?}: {m}"));
                return false;
            }
            Ok(Ok(false)) => return false,
            Ok(Ok(true)) => l.states += 1,
        }
    }
    true
}
pub fn c20(ctx: &Ctx) {
    use Cmd::*;
    let cmds = [
        Syntax,
        Move(Dir::R),
        Shift(Dir::L),
        Type(&["+"]),
        Type(&["="]),
        Backspace,
        Delete,
        Undo,
        Redo,
        SelectAll,
        Copy,
        Paste(DOC_FRAC),
        Paste(DOC_BAD),
        Put(4),
        Splice(0),
        Accept,
        Pick(true),
    ];
    let s = |t: &str| -> Row { t.split(' ').filter(|x| !x.is_empty()).map(sym).collect() };
    let formulas: Vec<Row> = vec![
        vec![],
        s("1 + a"),
        s("a >"),
        s("s u m"),
        vec![N::C(V::Frac, 1, vec![s("a"), s("b")]), sym("!")],
        vec![sym("x"), N::C(V::Sup, 1, vec![s("2")])],
        vec![N::C(V::Table, 2, vec![s("a"), s("b")])],
    ];
    let depth = ctx.pick(4, 5);
    let formulas = &formulas[..];
    let cases = seq_cases(formulas, &cmds);
    ctx.run(
        "all sequences of commands",
        &cases,
        seq_show,
        || (p_init(), make_parser().0),
        |(parser, fresh), (tree, first), l| {
            l.traces += 1;
            let visit = |seq: &[Cmd], l: &mut Local| judge_syntax(parser, fresh, tree, seq, l);
            let mut prefix = vec![first.clone()];
            if visit(&prefix, l) {
                sequences(&cmds, &mut prefix, depth, &mut |s| !l.failed() && visit(s, l));
            }
        },
    );
    let n = ctx.pick(30, 90);
    over_and_over(ctx, "one to three commands over and over", &formulas[..ctx.pick(3, 7)], &cmds, |parser, tree, pattern, l| {
        let seq: Vec<Cmd> = (0..n + pattern.len()).map(|i| pattern[i % pattern.len()].clone()).collect();
        for k in 0..pattern.len() {
            if !judge_syntax(parser, parser, tree, &seq[..n + k], l) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- C21

pub fn c21(ctx: &Ctx) {
    // copy every selection of one formula, paste it over every selection of another
    let sources = union(vec![large(), alike(3), all_trees(ctx.pick(3, 3), ALL_KINDS), all_trees(ctx.pick(3, 4), SMALL_KINDS)]);
    let targets: Vec<Row> = vec![vec![], flat(2), vec![N::C(V::Frac, 1, vec![flat(2), vec![]])], vec![sym("x"), N::C(V::Table, 2, vec![vec![], flat(1)])]]
        .into_iter()
        .map(|r: Row| upper(&r))
        .collect();
    ctx.run("copy anything, paste anywhere", &sources, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        // every selection is copied; the same document for the same nodes is pasted only once
        let mut seen = std::collections::HashSet::new();
        for a in &ps {
            for b in &ps {
                let s = selection(tree, &rs, &ps, a, b);
                let Some((left, right)) = s.edges() else { continue };
                l.transitions += 1;
                let nodes: Row = row_at(tree, &left.path).unwrap()[left.off..right.off].to_vec();
                let doc = match guard(|| {
                    let mut ed = Ed::new(parser, tree);
                    ed.select(a, b);
                    let before = ed.snap();
                    let doc = ed.copy();
                    (doc, before == ed.snap())
                }) {
                    Err(e) => return l.fail("copy", format!("copying {s:?}: {e}")),
                    Ok((_, false)) => return l.fail("copy", format!("copying {s:?} changed the editor")),
                    Ok((Err(e), _)) => return l.fail("copy", format!("copying {s:?} fails: {e}")),
                    Ok((Ok(d), _)) => d,
                };
                if !seen.insert((left.clone(), right.clone(), doc.clone())) {
                    continue;
                }
                for target in targets.iter().chain([tree]) {
                    let tps = positions(target);
                    let trs = rows(target);
                    for c in &tps {
                        for d in &tps {
                            if target == tree && (c != a || d != b) && c != d {
                                continue;
                            }
                            let ts = selection(target, &trs, &tps, c, d);
                            let Some((tl, tr)) = ts.edges() else { continue };
                            l.transitions += 1;
                            let mut want = target.clone();
                            row_at_mut(&mut want, &tl.path).unwrap().splice(tl.off..tr.off, nodes.clone());
                            let want_caret = Sel::at(&pos(&tl.path, tl.off + nodes.len()));
                            match guard(|| {
                                let mut ed = Ed::new(parser, target);
                                ed.select(c, d);
                                let r = ed.paste(&doc);
                                (r, ed.snap())
                            }) {
                                Err(e) => return l.fail("paste", format!("pasting {} over {ts:?} of {}: {e}", show(&nodes), show(target))),
                                Ok((r, s)) => {
                                    if r.is_err() || s.tree != want || s.sel != want_caret {
                                        return l.fail(
                                            "paste",
                                            format!("pasting {} over {ts:?} of {} gives {} with caret {:?} ({r:?})", show(&nodes), show(target), show(&s.tree), s.sel),
                                        );
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // long rows
    let cases: Vec<(Row, usize, usize)> = huge()
        .into_iter()
        .filter(|t| depth(t) < 15)
        .flat_map(|t| {
            let o = offsets(t.len());
            let o = if t.len() > 60 { o } else { vec![0, t.len()] };
            o.iter().flat_map(|a| o.iter().map(move |b| (*a, *b))).filter(|(a, b)| a != b).map(|(a, b)| (t.clone(), a, b)).collect::<Vec<_>>()
        })
        .collect();
    ctx.run("long rows, copied and pasted", &cases, |c| json!([row_json(&c.0), c.1, c.2]), p_init, |parser, (tree, a, b), l| {
        l.states += 1;
        l.traces += 1;
        let nodes: Row = tree[*a.min(b)..*a.max(b)].to_vec();
        for at in [0, tree.len()] {
            l.transitions += 2;
            let mut want = tree.clone();
            want.splice(at..at, nodes.clone());
            match guard(|| {
                let mut ed = Ed::new(parser, tree);
                ed.select(&pos(&[], *a), &pos(&[], *b));
                let doc = ed.copy()?;
                ed.put(&pos(&[], at));
                ed.paste(&doc)?;
                Ok::<_, String>(ed.snap())
            }) {
                Err(e) => return l.fail("paste", format!("copying {a} to {b} and pasting it at {at}: {e}")),
                Ok(Err(e)) => return l.fail("paste", format!("copying {a} to {b} and pasting it at {at}: {e}")),
                Ok(Ok(s)) => {
                    if s.tree != want || s.sel != Sel::at(&pos(&[], at + nodes.len())) {
                        return l.fail("paste", format!("copying {a} to {b} and pasting it at {at} gives {} with caret {:?}", show(&s.tree), s.sel));
                    }
                }
            }
        }
    });
    // deep nestings
    let ks = [(V::Frac, 1, 2), (V::Sup, 1, 1), (V::Table, 2, 4), (V::Sub, 1, 1), (V::Root, 2, 2)];
    let cases: Vec<(usize, usize)> = (0..6).flat_map(|k| (1..=ctx.pick(40, 80)).map(move |d| (k, d))).collect();
    ctx.run("nestings of every depth, copied and pasted", &cases, |c| json!(c), p_init, |parser, &(k, d), l| {
        l.states += 1;
        l.traces += 1;
        let mut tree = flat(1);
        for i in 0..d {
            let kind = ks[if k < 5 { k } else { i % 5 }];
            tree = wrap_in(kind, kind.2 - 1, tree, i % 2, 1, 0);
        }
        let tree = relabel(&tree);
        l.transitions += 2;
        match guard(|| {
            let mut ed = Ed::new(parser, &tree);
            ed.e.select_all();
            let doc = ed.copy()?;
            let mut other = Ed::new(parser, &flat(2));
            let before = other.snap();
            let r = other.paste(&doc);
            Ok::<_, String>((r, before, other.snap()))
        }) {
            Err(e) => l.fail("paste", format!("nesting of depth {d}: {e}")),
            Ok(Err(e)) => l.fail("copy", format!("nesting of depth {d}: {e}")),
            Ok(Ok((Ok(()), _, s))) => {
                let want: Row = tree.iter().cloned().chain(flat(2)).collect();
                if s.tree != want || s.sel != Sel::at(&pos(&[], tree.len())) {
                    l.fail("paste", format!("nesting of depth {d} is pasted as {} with caret {:?}", show(&s.tree), s.sel));
                }
            }
            Ok(Ok((Err(e), before, s))) => {
                // refused by the JSON reader, beyond 128 levels of JSON (more than 20 containers)
                let key = if d > 20 && before == s { "deep-nesting-refused" } else { "paste" };
                l.fail(key, format!("nesting of depth {d} is refused when pasted: {e}"));
            }
        }
    });
    // documents that are not valid clipboard contents
    let bad = bad_documents(ctx, &sources);
    let target: Row = upper(&vec![sym("x"), N::C(V::Frac, 1, vec![flat(1), vec![]]), sym("x")]);
    ctx.run("invalid documents", &bad, |d| json!(d), p_init, |parser, doc, l| {
        l.states += 1;
        l.traces += 1;
        for (a, b) in [(0, 0), (1, 3), (4, 0)] {
            l.transitions += 1;
            let ps = positions(&target);
            match guard(|| {
                let mut ed = Ed::new(parser, &target);
                ed.select(&ps[a], &ps[b]);
                let before = ed.snap();
                let r = ed.paste(doc);
                let after = ed.snap();
                // nothing was recorded in the history either: undo removes the initial formula
                ed.e.undo();
                (r, before, after, ed.tree())
            }) {
                Err(e) => return l.fail("bad-paste", format!("pasting {doc}: {e}")),
                Ok((r, before, after, undone)) => {
                    if r.is_ok() || before != after || !undone.is_empty() {
                        return l.fail("bad-paste", format!("pasting {doc} returned {r:?}; before {before:?}, after {after:?}, then undone {}", show(&undone)));
                    }
                }
            }
        }
    });
}
fn upper(r: &Row) -> Row {
    fn go(r: &Row) -> Row {
        r.iter()
            .map(|n| match n {
                N::S(s) => N::S(s.to_uppercase()),
                N::C(v, w, c) => N::C(*v, *w, c.iter().map(go).collect()),
            })
            .collect()
    }
    go(&relabel(r))
}
/// Every truncation of valid documents, and every valid document with one value replaced by something of another kind.
fn bad_documents(ctx: &Ctx, sources: &[Row]) -> Vec<String> {
    let mut out = vec!["".to_string(), " ".into(), "null".into(), "[]".into(), "{}".into(), "7".into(), "\"a\"".into(), "a".into(), "{\"version\":1}".into(), "{\"data\":[]}".into()];
    for t in sources.iter().filter(|t| row_weight(t) <= ctx.pick(2, 3)) {
        let doc = serialization::serialize_input_nodes(&nodes_to_real(t), serialization::SerializedDataType::JsonInputTree).unwrap();
        for i in 0..doc.len() {
            if doc.is_char_boundary(i) {
                out.push(doc[..i].to_string());
            }
        }
        out.push(format!("{doc}{doc}"));
        for junk in ["x", "0", "\0", "\u{feff}", "\u{a0}", "\u{200b}", ",", ";", "{", "}", "]", "\"", "//", "/**/", "#"] {
            out.push(format!("{doc}{junk}"));
            out.push(format!("{junk}{doc}"));
        }
        out.push(format!("({doc})"));
        out.push(format!("[{doc}]"));
        out.push(format!("`{doc}`"));
        out.push(doc.replace('"', "'"));
        out.push(json!(doc).to_string());
        let v: Value = serde_json::from_str(&doc).unwrap();
        let mut paths = vec![];
        collect_paths(&v, &mut vec![], &mut paths);
        for p in paths {
            let orig = get_path(&v, &p).clone();
            for w in [json!(null), json!("?"), json!(true), json!(-1), json!([1]), json!({"x": 1})] {
                let same_kind = std::mem::discriminant(&w) == std::mem::discriminant(&orig);
                if same_kind && !(w.is_number() || w.is_array() || w.is_object()) {
                    continue;
                }
                let mut m = v.clone();
                set_path(&mut m, &p, w);
                out.push(m.to_string());
            }
        }
    }
    // a string in place of a container kind is another kind of error; a replaced symbol text is valid
    let mut seen = std::collections::HashSet::new();
    out.retain(|d| seen.insert(d.clone()) && !acceptable(d));
    out
}
/// An independent description of valid documents.
fn acceptable(d: &str) -> bool {
    fn row(v: &Value) -> bool {
        match v {
            Value::Object(o) => o.len() == 1 && o.get("values").map(nodes).unwrap_or(false),
            // serde also reads structs from sequences of their fields
            Value::Array(a) => a.len() == 1 && nodes(&a[0]),
            _ => false,
        }
    }
    fn nodes(v: &Value) -> bool {
        v.as_array().map(|a| a.iter().all(node)).unwrap_or(false)
    }
    fn node(v: &Value) -> bool {
        let Some(o) = v.as_object() else { return false };
        if o.len() != 1 {
            return false;
        }
        if let Some(s) = o.get("Symbol") {
            return s.is_string();
        }
        let Some(Value::Array(c)) = o.get("Container") else { return false };
        if c.len() != 2 || !["Fraction", "Root", "Sup", "Sub", "Table"].iter().any(|k| c[0] == json!(k)) {
            return false;
        }
        let (values, width) = match &c[1] {
            Value::Object(g) => (g.get("values"), g.get("width")),
            Value::Array(a) if a.len() == 2 => (a.first(), a.get(1)),
            _ => return false,
        };
        let (Some(Value::Array(values)), Some(width)) = (values, width) else { return false };
        let Some(w) = width.as_u64() else { return false };
        w > 0 && values.len() as u64 % w == 0 && values.iter().all(row)
    }
    let Ok(v) = serde_json::from_str::<Value>(d) else { return false };
    match &v {
        Value::Object(o) => o.get("version").map(|x| x.as_u64().map(|x| x <= u32::MAX as u64).unwrap_or(false)).unwrap_or(false) && o.get("data").map(nodes).unwrap_or(false),
        Value::Array(a) => a.len() == 2 && a[0].is_u64() && nodes(&a[1]),
        _ => false,
    }
}
fn collect_paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                collect_paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                collect_paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}
fn get_path<'a>(v: &'a Value, p: &[String]) -> &'a Value {
    p.iter().fold(v, |v, k| match v {
        Value::Array(a) => &a[k.parse::<usize>().unwrap()],
        o => &o[k],
    })
}
fn set_path(v: &mut Value, p: &[String], w: Value) {
    let mut at = v;
    for k in p {
        at = match at {
            Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
            o => &mut o[k.as_str()],
        };
    }
    *at = w;
}

// ---------------------------------------------------------------- C34

pub fn c34(ctx: &Ctx) {
    let runs: Vec<&[&str]> = vec![&["N"], &["N", "O"], &["N", "N", "O", "\u{2211}"], &["ab"], &[" "], &["x", "x"], &["\u{e9}", "e\u{301}", "\u{1F468}\u{200D}\u{1F469}", "X", ""], &["\r", "\n", "\t", "\r\n", "\0"]];
    let cases = union(vec![huge(), large(), alike(2), trees(ctx, (2, 3, 5), (3, 4, 6), false)]);
    ctx.run("typing over every selection", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        let ends = chosen(tree, &ps);
        for a in &ends {
            for b in &ends {
                let s = selection(tree, &rs, &ps, a, b);
                let Some((left, right)) = s.edges() else { continue };
                for run in &runs {
                    // as one command, and symbol by symbol
                    for single in [false, true] {
                        if single && run.len() == 1 {
                            continue;
                        }
                        l.transitions += 1;
                        let mut want = tree.clone();
                        row_at_mut(&mut want, &left.path).unwrap().splice(left.off..right.off, run.iter().map(|s| sym(s)));
                        let caret = Sel::at(&pos(&left.path, left.off + run.len()));
                        match guard(|| {
                            let mut ed = Ed::new(parser, tree);
                            ed.select(a, b);
                            let before = ed.snap();
                            if single {
                                run.iter().for_each(|s| ed.typed(&[s]));
                            } else {
                                ed.typed(run);
                            }
                            let after = ed.snap();
                            for _ in 0..(if single { run.len() } else { 1 }) {
                                ed.e.undo();
                            }
                            (after, ed.snap() == before)
                        }) {
                            Err(e) => return l.fail("type", format!("typing {run:?} over {s:?}: {e}")),
                            Ok((got, undone)) => {
                                if got.tree != want || got.sel != caret {
                                    return l.fail("type", format!("typing {run:?} over {s:?} gives {} with the caret at {:?}", show(&got.tree), got.sel));
                                }
                                if !undone {
                                    return l.fail("type", format!("undoing typing {run:?} over {s:?} does not restore formula and caret"));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    let cases = union(vec![huge(), large(), alike(2), trees(ctx, (2, 3, 4), (3, 3, 5), false)]);
    let inserts: Vec<Row> = vec![vec![], vec![sym("N")], vec![sym("N"), N::C(V::Frac, 1, vec![vec![sym("O")], vec![]]), sym("P")]];
    ctx.run("replacing every range, caret everywhere", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let ends = chosen(tree, &ps);
        let t = tagged(tree, &mut 0);
        for path in rows(tree) {
            let n = row_at(tree, &path).unwrap().len();
            let offs = offsets(n);
            for &from in &offs {
                for &to in &offs {
                    for nodes in &inserts {
                        let (lo, hi) = (from.min(to), from.max(to));
                        let mut want = tree.clone();
                        row_at_mut(&mut want, &path).unwrap().splice(lo..hi, nodes.iter().cloned());
                        let mut tw = t.clone();
                        let new = tagged(nodes, &mut 1000);
                        t_row_mut(&mut tw, &path).splice(lo..hi, new);
                        for p in &ends {
                            l.transitions += 1;
                            match guard(|| {
                                let mut ed = Ed::new(parser, tree);
                                ed.put(p);
                                let before = ed.snap();
                                ed.splice(&(path.clone(), from, to), nodes);
                                let after = ed.snap();
                                ed.e.undo();
                                (after, ed.snap() == before)
                            }) {
                                Err(e) => return l.fail("splice", format!("replacing {path:?} {from}..{to} by {} with the caret at {p:?}: {e}", show(nodes))),
                                Ok((got, undone)) => {
                                    let what = || format!("replacing {path:?} {from}..{to} by {} with the caret at {p:?}", show(nodes));
                                    if got.tree != want {
                                        return l.fail("splice", format!("{} gives {}", what(), show(&got.tree)));
                                    }
                                    // the caret is where it was relative to everything that is still there
                                    let ok = match got.sel.caret() {
                                        Some(q) => {
                                            valid_pos(&want, &q)
                                                && same_place(&t, p, &tw, &q)
                                                && (q.path.len() <= p.path.len() || q.path == p.path)
                                                && !inside_new(&q, &path, lo, nodes)
                                        }
                                        None => false,
                                    };
                                    if !ok {
                                        return l.fail("splice", format!("{} leaves the caret at {:?} of {}", what(), got.sel, show(&want)));
                                    }
                                    if !undone {
                                        return l.fail("splice", format!("undo after {} does not restore formula and caret", what()));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // long texts, typed at once
    let names: Vec<String> = (0..ctx.pick(300, 1100)).map(|k| format!("t{k}")).collect();
    let cases = all_trees(1, ALL_KINDS);
    ctx.run("long texts typed at once", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        for p in positions(tree) {
            for n in [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, names.len()] {
                l.transitions += 1;
                let run: Vec<&str> = names[..n].iter().map(|s| s.as_str()).collect();
                let mut want = tree.clone();
                row_at_mut(&mut want, &p.path).unwrap().splice(p.off..p.off, run.iter().map(|s| sym(s)));
                match guard(|| {
                    let mut ed = Ed::new(parser, tree);
                    ed.put(&p);
                    let before = ed.snap();
                    ed.typed(&run);
                    let after = ed.snap();
                    ed.e.undo();
                    (after, ed.snap() == before)
                }) {
                    Err(e) => return l.fail("type", format!("typing {n} symbols at {p:?}: {e}")),
                    Ok((got, undone)) => {
                        if got.tree != want || got.sel != Sel::at(&pos(&p.path, p.off + n)) {
                            return l.fail("type", format!("typing {n} symbols at {p:?} gives {} with the caret at {:?}", show(&got.tree).chars().take(300).collect::<String>(), got.sel));
                        }
                        if !undone {
                            return l.fail("type", format!("undoing typing {n} symbols at {p:?} does not restore formula and caret"));
                        }
                    }
                }
            }
        }
    });
    let mut cases = union(vec![alike(2), trees(ctx, (2, 3, 3), (3, 3, 4), false)]);
    cases.retain(|t| positions(t).len() <= ctx.pick(16, 32));
    let inserts: Vec<Row> = vec![vec![], vec![sym("N"), N::C(V::Frac, 1, vec![vec![sym("O")], vec![]])]];
    ctx.run("replacing every range, while something is selected", &cases, row_json, p_init, |parser, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        let t = tagged(tree, &mut 0);
        for path in &rs {
            let n = row_at(tree, path).unwrap().len();
            for from in 0..=n {
                for to in 0..=n {
                    for nodes in &inserts {
                        let (lo, hi) = (from.min(to), from.max(to));
                        let mut want = tree.clone();
                        row_at_mut(&mut want, path).unwrap().splice(lo..hi, nodes.iter().cloned());
                        let mut tw = t.clone();
                        let new = tagged(nodes, &mut 1000);
                        t_row_mut(&mut tw, path).splice(lo..hi, new);
                        let (pw, rw) = (positions(&want), rows(&want));
                        // where each end may be: where it was relative to everything that is still there
                        let places: Vec<Vec<&Pos>> = ps
                            .iter()
                            .map(|p| pw.iter().filter(|q| same_place(&t, p, &tw, q) && (q.path.len() <= p.path.len() || q.path == p.path) && !inside_new(q, path, lo, nodes)).collect())
                            .collect();
                        for (i, a) in ps.iter().enumerate() {
                            for (j, b) in ps.iter().enumerate() {
                                // in larger formulas: neighbours, and everything up to either end
                                if i == j || ps.len() > 14 && i.abs_diff(j) > 1 && j != 0 && i != 0 {
                                    continue;
                                }
                                l.transitions += 1;
                                let r = guard(|| {
                                    let mut ed = Ed::new(parser, tree);
                                    ed.select(a, b);
                                    let before = ed.snap();
                                    ed.splice(&(path.clone(), from, to), nodes);
                                    let after = ed.snap();
                                    ed.e.undo();
                                    (after, ed.snap() == before)
                                });
                                let what = || format!("replacing {path:?} {from}..{to} by {} with {a:?} to {b:?} selected", show(nodes));
                                match r {
                                    Err(e) => return l.fail("splice", format!("{}: {e}", what())),
                                    Ok((got, undone)) => {
                                        if got.tree != want {
                                            return l.fail("splice", format!("{} gives {}", what(), show(&got.tree)));
                                        }
                                        if !places[i].iter().any(|a| places[j].iter().any(|b| selection(&want, &rw, &pw, a, b) == got.sel)) {
                                            return l.fail("splice", format!("{} leaves {:?} of {} selected", what(), got.sel, show(&want)));
                                        }
                                        if !undone {
                                            return l.fail("splice", format!("undo after {} does not restore formula and selection", what()));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}
/// Inside one of the containers that were just put in?
pub fn inside_new(q: &Pos, path: &Path, lo: usize, nodes: &Row) -> bool {
    q.path.len() > path.len() && q.path.starts_with(path) && {
        let i = q.path[path.len()].0;
        i >= lo && i < lo + nodes.len()
    }
}

// ---------------------------------------------------------------- C33

/// Reference: every beginning of a rule's text that the symbols right before the caret spell, at least `min` symbols long.
/// (rule number, length of the matched text, number of symbols)
pub fn reference_matches(rules: &[AutocompleteRule], row: &Row, caret: usize, min: usize) -> Vec<(usize, usize, usize)> {
    let mut out = vec![];
    for (k, rule) in rules.iter().enumerate() {
        for n in 1..=caret {
            let part = &row[caret - n..caret];
            if !part.iter().all(|x| x.is_sym()) {
                break;
            }
            let text: String = part.iter().map(|x| if let N::S(s) = x { s.as_str() } else { "" }).collect();
            if n >= min && rule.parser.starts_with(&text) {
                out.push((k, text.len(), n));
            }
        }
    }
    out
}
pub fn app_rules() -> Vec<AutocompleteRule> {
    let (_, _, list) = modules_list();
    list.iter().flat_map(|m: &Rc<dyn ParseModule>| m.get_autocomplete_rules().to_vec()).collect()
}
/// (text typed before, text of the token, nodes behind, wrapping)
type TokenCase = (Row, Vec<String>, Row, usize);

pub fn c33(ctx: &Ctx) {
    let rules = app_rules();
    let mut tokens: Vec<Vec<String>> = vec![];
    for r in &rules {
        let chars: Vec<String> = r.parser.chars().map(|c| c.to_string()).collect();
        for n in 1..=chars.len() {
            tokens.push(chars[..n].to_vec());
        }
        if chars.len() > 2 {
            // one symbol holding several characters
            tokens.push(vec![chars[0].clone(), chars[1..].concat()]);
            tokens.push(chars[1..].to_vec());
            let mut wrong = chars.clone();
            wrong[1] = "z".into();
            tokens.push(wrong);
        }
    }
    for t in ["x", "l i m s u", ">", "> = =", "> >", "= >", "s u m m", "s u s u m"] {
        tokens.push(t.split(' ').map(|s| s.to_string()).collect());
    }
    tokens.sort();
    tokens.dedup();
    let befores: Vec<Row> = vec![
        vec![],
        vec![sym("1")],
        vec![sym("1"), sym("2"), sym("3"), sym("4"), sym("5"), sym("6"), sym("7"), sym("8"), sym("9"), sym("0"), sym("1"), sym("2")],
        vec![N::C(V::Frac, 1, vec![vec![sym("1")], vec![]])],
        vec![sym("s")],
        vec![sym(">"), sym("=")],
    ];
    let afters: Vec<Row> = vec![vec![], vec![sym("2"), N::C(V::Sup, 1, vec![vec![]])], vec![sym("u"), sym("p")]];
    let mut cases: Vec<TokenCase> = vec![];
    for t in &tokens {
        for b in &befores {
            for a in &afters {
                for w in 0..3 {
                    cases.push((b.clone(), t.clone(), a.clone(), w));
                }
            }
        }
    }
    ctx.run(
        "leaving or accepting after typing",
        &cases,
        |c| json!({"before": row_json(&c.0), "typed": c.1, "behind": row_json(&c.2), "place": c.3}),
        p_init,
        |parser, (before, token, after, place), l| {
            l.states += 1;
            l.traces += 1;
            // where the token is typed
            let mut inner = before.clone();
            let start = inner.len();
            inner.extend(after.iter().cloned());
            let (tree, path): (Row, Path) = match place {
                0 => (inner, vec![]),
                1 => (vec![sym("7"), N::C(V::Frac, 1, vec![vec![sym("8")], inner]), sym("9")], vec![(1, 1)]),
                _ => (vec![N::C(V::Table, 1, vec![inner, vec![]])], vec![(0, 0)]),
            };
            let mut typed_tree = tree.clone();
            row_at_mut(&mut typed_tree, &path).unwrap().splice(start..start, token.iter().map(|s| sym(s)));
            let caret = pos(&path, start + token.len());
            let row = row_at(&typed_tree, &path).unwrap().clone();
            let offered = reference_matches(&rules, &row, caret.off, 2);
            let complete: Vec<&(usize, usize, usize)> = offered.iter().filter(|m| m.1 == rules[m.0].parser.len()).collect();
            l.count("offered completions", offered.len() as u64);
            l.count("complete tokens", complete.len() as u64);
            let ps = positions(&typed_tree);
            let rs = rows(&typed_tree);
            // the formula as it stands, caret behind the token: no typing involved, so nothing has been replaced yet
            let setup = || {
                let mut ed = Ed::new(parser, &typed_tree);
                ed.put(&caret);
                ed
            };
            // what may happen when a command leads to (tree, caret start) and the token lies at lo..hi of its row
            let judge = |l: &mut Local, what: String, tree_then: &Row, sel_then: &Sel, caret_start: Option<&Pos>, shift: usize, got: Result<(Snap, Snap), PanicInfo>| {
                l.transitions += 1;
                let (got, undone) = match got {
                    Err(e) => return l.fail("autocorrect", format!("{what}: {e}")),
                    Ok(g) => g,
                };
                let t = tagged(tree_then, &mut 0);
                let kept = got.tree == *tree_then && got.sel == *sel_then;
                let mut may = vec![];
                for m in &complete {
                    let (lo, hi) = (caret.off - m.2 + shift, caret.off + shift);
                    let inside = match caret_start {
                        None => true,
                        Some(p) => (p.path == path && lo <= p.off && p.off <= hi) || (p.path.len() > path.len() && p.path.starts_with(&path) && lo <= p.path[path.len()].0 && p.path[path.len()].0 < hi),
                    };
                    let then_row = row_at(tree_then, &path);
                    let intact = then_row.map(|r| r.len() >= hi && r[lo..hi] == row[caret.off - m.2..caret.off]).unwrap_or(false);
                    if !inside && intact {
                        let mut w = tree_then.clone();
                        let result = nodes_from_real(&rules[m.0].result);
                        row_at_mut(&mut w, &path).unwrap().splice(lo..hi, result.iter().cloned());
                        let mut tw = t.clone();
                        let new = tagged(&result, &mut 1000);
                        t_row_mut(&mut tw, &path).splice(lo..hi, new);
                        may.push((w, tw, lo, result));
                    }
                }
                let replaced = may.iter().any(|(w, tw, lo, result)| {
                    got.tree == *w
                        && match (&got.sel, sel_then) {
                            (Sel::Row(qp, qa, qb), Sel::Row(pp, pa, pb)) => [(qa, pa), (qb, pb)].iter().all(|(q, p)| {
                                let q = pos(qp, **q);
                                valid_pos(w, &q) && same_place(&t, &pos(pp, **p), tw, &q) && !inside_new(&q, &path, *lo, result)
                            }),
                            _ => false,
                        }
                });
                // typing on may still be part of the same token
                let must = offered.len() == 1 && may.len() == 1 && *tree_then == typed_tree;
                if must {
                    l.count("replaced on leaving", 1);
                }
                let ok = if must { replaced } else { kept || (!may.is_empty() && replaced) };
                if !ok {
                    l.fail(
                        "autocorrect",
                        format!("{what}: the formula becomes {} with the caret {:?}; completed tokens at the caret: {}, so it should {}", show(&got.tree), got.sel, complete.len(), if must { "be replaced by the result" } else if may.is_empty() { "stay" } else { "stay or be replaced" }),
                    );
                } else if !must && may.is_empty() && undone.tree != got.tree && tree_then == &typed_tree && undone.tree != Vec::<N>::new() {
                    l.fail("autocorrect", format!("{what}: left an entry in the history although nothing changed"));
                }
            };
            // 1. moving
            for d in [Dir::L, Dir::R, Dir::U, Dir::D] {
                let to = step(&typed_tree, &ps, &caret, d).unwrap_or_else(|| caret.clone());
                let got = guard(|| {
                    let mut ed = setup();
                    ed.mv(d);
                    let s = ed.snap();
                    ed.e.undo();
                    (s, ed.snap())
                });
                judge(l, format!("moving {d:?}"), &typed_tree, &Sel::at(&to), Some(&to), 0, got);
                if l.failed() {
                    return;
                }
            }
            // 2. clicking anywhere, dragging to anywhere
            for to in &ps {
                let got = guard(|| {
                    let mut ed = setup();
                    ed.put(to);
                    let s = ed.snap();
                    ed.e.undo();
                    (s, ed.snap())
                });
                judge(l, format!("clicking at {to:?}"), &typed_tree, &Sel::at(to), Some(to), 0, got);
                let sel = selection(&typed_tree, &rs, &ps, &caret, to);
                let first = match &sel {
                    Sel::Row(p, a, _) => Some(pos(p, *a)),
                    _ => None,
                };
                let got = guard(|| {
                    let mut ed = setup();
                    ed.e.extend_selection(pos_to_real(to));
                    let s = ed.snap();
                    ed.e.undo();
                    (s, ed.snap())
                });
                judge(l, format!("selecting to {to:?}"), &typed_tree, &sel, first.as_ref(), 0, got);
                if l.failed() {
                    return;
                }
            }
            // 3. typing on
            for text in ["5", "+", "t", "="] {
                let mut then = typed_tree.clone();
                row_at_mut(&mut then, &path).unwrap().insert(caret.off, sym(text));
                let to = pos(&path, caret.off + 1);
                let got = guard(|| {
                    let mut ed = setup();
                    ed.typed(&[text]);
                    let s = ed.snap();
                    ed.e.undo();
                    (s, ed.snap())
                });
                judge(l, format!("typing {text}"), &then, &Sel::at(&to), Some(&to), 0, got);
                if l.failed() {
                    return;
                }
            }
            // 4. deleting the last symbol spoils the token
            {
                let mut then = typed_tree.clone();
                row_at_mut(&mut then, &path).unwrap().remove(caret.off - 1);
                let to = pos(&path, caret.off - 1);
                let got = guard(|| {
                    let mut ed = setup();
                    ed.backspace();
                    let s = ed.snap();
                    ed.e.undo();
                    (s, ed.snap())
                });
                judge(l, "Backspace".into(), &then, &Sel::at(&to), Some(&to), 0, got);
            }
            // 5. accepting, after walking through the offers
            for picks in 0..=offered.len().min(4) {
                l.transitions += 1;
                let r = guard(|| {
                    let mut ed = setup();
                    let mut shown = vec![];
                    for _ in 0..picks {
                        ed.pick_completion(true);
                    }
                    let chosen = ed.e.get_autocomplete().map(|a| {
                        let (i, ms, p) = a.destructure();
                        shown = ms.iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length)).collect();
                        (i, pos_from_real(&p))
                    });
                    ed.e.finish_autocomplete(true);
                    (chosen, shown, ed.snap())
                });
                let (chosen, shown, got) = match r {
                    Err(e) => return l.fail("accept", format!("{e}")),
                    Ok(v) => v,
                };
                let mut want_shown: Vec<(String, usize, usize)> = offered.iter().map(|m| (rules[m.0].parser.clone(), m.1, m.2)).collect();
                let mut got_shown: Vec<(String, usize, usize)> = shown.iter().map(|m| (m.0.parser.clone(), m.1, m.2)).collect();
                want_shown.sort();
                got_shown.sort();
                if want_shown != got_shown {
                    return l.fail("offers", format!("offered: {got_shown:?}, should be {want_shown:?}"));
                }
                match chosen {
                    None => {
                        if got.tree != typed_tree || got.sel != Sel::at(&caret) {
                            return l.fail("accept", "accepting without an offer changed the editor");
                        }
                    }
                    Some((i, p)) => {
                        let (rule, _, n) = &shown[i];
                        // a rule offered twice (for two lengths) is remembered only once
                        let twice = (1..offered.len()).any(|k| offered[..k].iter().any(|o| o.0 == offered[k].0));
                        if p != caret || (!twice && i != picks.min(offered.len() - 1)) {
                            return l.fail("accept", format!("after {picks} steps down offer {i} of {} is selected, for the caret {p:?}", offered.len()));
                        }
                        let mut want = typed_tree.clone();
                        let result = nodes_from_real(&rule.result);
                        row_at_mut(&mut want, &path).unwrap().splice(caret.off - n..caret.off, result.iter().cloned());
                        let t = tagged(&typed_tree, &mut 0);
                        let mut tw = t.clone();
                        let new = tagged(&result, &mut 1000);
                        t_row_mut(&mut tw, &path).splice(caret.off - n..caret.off, new);
                        let ok = got.tree == want
                            && got.sel.caret().map(|q| valid_pos(&want, &q) && same_place(&t, &caret, &tw, &q)).unwrap_or(false);
                        if !ok {
                            return l.fail("accept", format!("accepting {} gives {} with the caret at {:?}, should give {}", rule.parser, show(&got.tree), got.sel, show(&want)));
                        }
                    }
                }
            }
        },
    );
    crate::completion::leave_histories(ctx);
}
