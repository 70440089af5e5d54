use crate::{insert_runs, insert_runs_for, trees};
use input_tree::editing::{editable::Editable, invertible::Invertible, BasicEdit};
use input_tree::focus::{InputRowPosition, InputRowRange};
use input_tree::input_tree::InputTree;
use serde_json::json;
use vcommon::*;

pub fn apply_real(tree: &Row, edits: &[BasicEdit]) -> Result<InputTree, PanicInfo> {
    let mut t = InputTree::new(to_real(tree));
    guard(|| {
        for e in edits {
            t.apply_edit(e);
        }
        t
    })
}
/// Compares the real formula with the model's.
pub fn same(t: &InputTree, want: &Row) -> Result<(), String> {
    match guard(|| (grids_consistent(&t.root), from_real(&t.root))) {
        Err(p) => Err(format!("the formula is broken: {p}")),
        Ok((ok, got)) => {
            if &got != want {
                Err(format!("formula is {} but should be {}", show(&got), show(want)))
            } else if !ok {
                Err("a container's width/height/cell count disagree".into())
            } else {
                Ok(())
            }
        }
    }
}

pub fn check_edits(l: &mut Local, tree: &Row, edits: &[Edit], whole_list: bool) {
    for e in edits {
        let mut want = tree.clone();
        apply(&mut want, e);
        let real = edit_to_real(e);
        let r = if whole_list {
            let mut t = InputTree::new(to_real(tree));
            guard(|| {
                t.apply_edits(std::slice::from_ref(&real));
                t
            })
        } else {
            apply_real(tree, std::slice::from_ref(&real))
        };
        l.transitions += 1;
        match r {
            Err(p) => return l.fail("edit", format!("{e:?}: {p}")),
            Ok(t) => {
                if let Err(m) = same(&t, &want) {
                    return l.fail("edit", format!("{e:?}: {m}"));
                }
            }
        }
    }
}

pub fn c01(ctx: &Ctx) {
    let cases = union(vec![trees(ctx, (3, 4), (4, 5), true), huge()]);
    let runs = insert_runs();
    ctx.run("every row edit of every formula", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        let es = row_edits(tree, &insert_runs_for(tree), true);
        check_edits(l, tree, &es, false);
        l.traces += 1;
        l.count("deletions", es.iter().filter(|e| matches!(e, Edit::Del { .. })).count() as u64);
        l.max("depth", depth(tree) as u64);
        l.max("edits_per_formula", es.len() as u64);
    });
    // one list of edits is the same as its edits one after the other
    let small = all_trees(ctx.pick(2, 3), ALL_KINDS);
    let runs2: Vec<Row> = runs[1..4].to_vec();
    ctx.run("every list of two row edits", &small, row_json, || (), |_, tree, l| {
        l.states += 1;
        for e1 in row_edits(tree, &runs2, true) {
            let mut mid = tree.clone();
            apply(&mut mid, &e1);
            for e2 in row_edits(&mid, &runs2, true) {
                let mut want = mid.clone();
                apply(&mut want, &e2);
                let list = [edit_to_real(&e1), edit_to_real(&e2)];
                let mut t = InputTree::new(to_real(tree));
                l.transitions += 2;
                let r = guard(|| {
                    t.apply_edits(&list);
                    t
                });
                l.traces += 1;
                match r {
                    Err(p) => return l.fail("edit-list", format!("{e1:?}, {e2:?}: {p}")),
                    Ok(t) => {
                        if let Err(m) = same(&t, &want) {
                            return l.fail("edit-list", format!("{e1:?}, {e2:?}: {m}"));
                        }
                    }
                }
            }
        }
    });
}

fn fresh_cell(i: usize) -> Row {
    match i % 3 {
        0 => vec![N::S(format!("N{i}"))],
        1 => vec![N::C(V::Sup, 1, vec![vec![N::S(format!("N{i}"))]]), N::S(format!("M{i}"))],
        _ => vec![],
    }
}
fn distinct_cell(i: usize) -> Row {
    vec![N::S(format!("N{i}"))]
}
fn has_table(r: &Row) -> bool {
    r.iter().any(|n| match n {
        N::S(_) => false,
        N::C(v, _, c) => *v == V::Table || c.iter().any(has_table),
    })
}
/// Tables of every size up to max x max whose cells all differ; alone, nested, and inside another table.
pub fn table_trees(max: usize) -> Vec<Row> {
    let mut out = vec![];
    for w in 1..=max {
        for h in 1..=max {
            for style in 0..2 {
                let cells: Vec<Row> = (0..w * h)
                    .map(|i| if style == 0 { vec![sym("x")] } else { (0..(i * 2 + 1) % 4).map(|_| sym("x")).collect() })
                    .collect();
                let t = N::C(V::Table, w, cells);
                out.push(vec![t.clone()]);
                out.push(vec![sym("x"), N::C(V::Sup, 1, vec![vec![t.clone(), sym("x")]])]);
                out.push(vec![t.clone(), sym("x"), t.clone()]);
                for c in 0..4 {
                    let mut cs: Vec<Row> = vec![vec![sym("x")], vec![], vec![], vec![sym("x")]];
                    cs[c] = vec![sym("x"), t.clone()];
                    out.push(vec![sym("x"), N::C(V::Table, 2, cs)]);
                }
            }
        }
    }
    out.iter().map(relabel).collect()
}

pub fn c02(ctx: &Ctx) {
    let enumerated: Vec<Row> = trees(ctx, (3, 4), (4, 5), false).into_iter().filter(has_table).collect();
    let cases = union(vec![table_trees(ctx.pick(4, 6)), large().into_iter().filter(has_table).collect(), huge().into_iter().filter(has_table).collect(), enumerated]);
    let max = ctx.pick(3, 4);
    ctx.run("every table edit of every formula with tables", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        let es = table_edits(tree, max, &fresh_cell);
        check_edits(l, tree, &es, false);
        let es2 = table_edits(tree, 1, &distinct_cell);
        check_edits(l, tree, &es2, true);
        l.traces += 1;
        l.count("row_edits", es.iter().filter(|e| matches!(e, Edit::GIns { rows: true, .. } | Edit::GDel { rows: true, .. })).count() as u64);
        l.count("deletions", es.iter().filter(|e| matches!(e, Edit::GDel { .. })).count() as u64);
        l.count("no_table_edit", es.is_empty() as u64);
    });
    let small: Vec<Row> = table_trees(ctx.pick(2, 3));
    ctx.run("every pair of table edits", &small, row_json, || (), |_, tree, l| {
        l.states += 1;
        for e1 in table_edits(tree, 1, &distinct_cell) {
            let mut mid = tree.clone();
            apply(&mut mid, &e1);
            for e2 in table_edits(&mid, 2, &fresh_cell) {
                let mut want = mid.clone();
                apply(&mut want, &e2);
                l.transitions += 2;
                l.traces += 1;
                match apply_real(tree, &[edit_to_real(&e1), edit_to_real(&e2)]) {
                    Err(p) => return l.fail("edit", format!("{e1:?}, {e2:?}: {p}")),
                    Ok(t) => {
                        if let Err(m) = same(&t, &want) {
                            return l.fail("edit", format!("{e1:?}, {e2:?}: {m}"));
                        }
                    }
                }
            }
        }
    });
}

pub fn c03(ctx: &Ctx) {
    let runs: Vec<Row> = vec![vec![sym("N0")], vec![sym("N1"), N::C(V::Frac, 1, vec![vec![sym("N2")], vec![]])], vec![N::C(V::Table, 2, vec![vec![], vec![sym("N3")]])]];
    // (formulas, history depth)
    let plans: Vec<(&str, Vec<Row>, usize)> = vec![
        ("histories of length 1", union(vec![trees(ctx, (3, 4), (4, 5), true), huge(), table_trees(ctx.pick(3, 5))]), 1),
        ("histories of length 2", union(vec![all_trees(ctx.pick(2, 3), ALL_KINDS), table_trees(ctx.pick(2, 3))]), 2),
        ("histories of length 3", all_trees(ctx.pick(1, 2), CORE_KINDS), 3),
    ];
    for (name, cases, d) in plans {
        ctx.run(name, &cases, row_json, || (), |_, tree, l| {
            l.states += 1;
            history(l, tree, tree, &mut vec![], d, &runs);
        });
    }
}
fn history(l: &mut Local, start: &Row, cur: &Row, hist: &mut Vec<Edit>, left: usize, runs: &[Row]) {
    if l.failed() {
        return;
    }
    if left == 0 {
        return roundtrip(l, start, cur, hist);
    }
    let mut es = row_edits(cur, runs, true);
    es.extend(table_edits(cur, 2, &distinct_cell));
    for e in es {
        let mut next = cur.clone();
        apply(&mut next, &e);
        hist.push(e);
        history(l, start, &next, hist, left - 1, runs);
        hist.pop();
    }
}
fn roundtrip(l: &mut Local, start: &Row, end: &Row, hist: &[Edit]) {
    let edits: Vec<BasicEdit> = hist.iter().map(edit_to_real).collect();
    l.traces += 1;
    l.transitions += 3 * edits.len() as u64;
    let r = guard(|| {
        let mut t = InputTree::new(to_real(start));
        t.apply_edits(&edits);
        let after = from_real(&t.root);
        let inv: Vec<BasicEdit> = edits.iter().rev().map(|e| e.inverse()).collect();
        let inv_inv: Vec<BasicEdit> = inv.iter().rev().map(|e| e.inverse()).collect();
        t.apply_edits(&inv);
        let undone = from_real(&t.root);
        let equal = t.root == to_real(start) && grids_consistent(&t.root);
        t.apply_edits(&edits);
        let redone = from_real(&t.root);
        (after, undone, equal, redone, inv_inv == edits)
    });
    let fail = |l: &mut Local, m: String| l.fail("undo", format!("history {hist:?}: {m}"));
    match r {
        Err(p) => fail(l, format!("{p}")),
        Ok((after, undone, equal, redone, ii)) => {
            if &after != end {
                fail(l, format!("after the edits the formula is {} but should be {}", show(&after), show(end)))
            } else if &undone != start || !equal {
                fail(l, format!("undone to {} instead of {}", show(&undone), show(start)))
            } else if &redone != end {
                fail(l, format!("redone to {} instead of {}", show(&redone), show(end)))
            } else if !ii {
                fail(l, "the inverse of the inverse is not the edit".into())
            }
        }
    }
}

pub fn c04(ctx: &Ctx) {
    let cases = union(vec![trees(ctx, (3, 4), (4, 5), true), huge()]);
    ctx.run("every edit built from a range or position", &cases, row_json, || (), |_, tree, l| {
        let runs = insert_runs_for(tree);
        l.states += 1;
        l.traces += 1;
        let real = InputTree::new(to_real(tree));
        for path in rows(tree) {
            let row = row_at(tree, &path).unwrap();
            let offs = offsets(row.len());
            for &s in &offs {
                for &e in &offs {
                    let (lo, hi) = (s.min(e), s.max(e));
                    // removal
                    let got = guard(|| {
                        let range = InputRowRange::from_minimal(real.root_focus(), &rng_to_real(&(path.clone(), s, e)));
                        let (edits, p) = BasicEdit::remove_range(&range);
                        (edits, pos_from_real(&p))
                    });
                    let mut want = tree.clone();
                    row_at_mut(&mut want, &path).unwrap().drain(lo..hi);
                    judge(l, tree, got.map(|(e, p)| (e, (p.path, p.off, p.off))), &want, (path.clone(), lo, lo), || json!(["remove_range", path, s, e]));
                    // what is there already may also be what it is replaced with
                    let mut own = vec![];
                    if s != e {
                        own.push(row[lo..hi].to_vec());
                        own.push(row[lo..hi - 1].to_vec());
                        own.push(row[lo + 1..hi].iter().chain(&row[lo..hi]).cloned().collect());
                    }
                    for v in runs.iter().chain(&own) {
                        if l.failed() {
                            return;
                        }
                        let got = guard(|| {
                            let range = InputRowRange::from_minimal(real.root_focus(), &rng_to_real(&(path.clone(), s, e)));
                            let (edits, r) = BasicEdit::replace_range(&range, nodes_to_real(v));
                            (edits, rng_from_real(&r))
                        });
                        let mut want = tree.clone();
                        row_at_mut(&mut want, &path).unwrap().splice(lo..hi, v.iter().cloned());
                        judge(l, tree, got, &want, (path.clone(), lo, lo + v.len()), || json!(["replace_range", path, s, e, row_json(v)]));
                    }
                }
                for v in &runs {
                    let got = guard(|| {
                        let p = InputRowPosition::from_minimal(real.root_focus(), &pos_to_real(&pos(&path, s)));
                        let (edits, p) = BasicEdit::insert_at_position(&p, nodes_to_real(v));
                        (edits, pos_from_real(&p))
                    });
                    let mut want = tree.clone();
                    row_at_mut(&mut want, &path).unwrap().splice(s..s, v.iter().cloned());
                    let at = s + v.len();
                    judge(l, tree, got.map(|(e, p)| (e, (p.path, p.off, p.off))), &want, (path.clone(), at, at), || json!(["insert_at_position", path, s, row_json(v)]));
                }
            }
        }
    });
}
fn judge(l: &mut Local, tree: &Row, got: Result<(Vec<BasicEdit>, Rng), PanicInfo>, want: &Row, want_at: Rng, what: impl Fn() -> serde_json::Value) {
    if l.failed() {
        return;
    }
    l.transitions += 1;
    match got {
        Err(p) => l.fail("builder", format!("{}: {p}", what())),
        Ok((edits, at)) => {
            if at != want_at {
                return l.fail("builder", format!("{}: announced {:?} instead of {:?}", what(), at, want_at));
            }
            match apply_real(tree, &edits) {
                Err(p) => l.fail("builder", format!("{}: applying the built edits: {p}", what())),
                Ok(t) => {
                    if let Err(m) = same(&t, want) {
                        return l.fail("builder", format!("{}: {m}", what()));
                    }
                    // the built edits can be undone
                    let mut t = t;
                    let r = guard(|| {
                        for e in edits.iter().rev() {
                            t.apply_edit(&e.inverse());
                        }
                        from_real(&t.root)
                    });
                    match r {
                        Err(p) => l.fail("builder", format!("{}: undoing the built edits: {p}", what())),
                        Ok(b) => {
                            if &b != tree {
                                l.fail("builder", format!("{}: built edits undo to {}", what(), show(&b)))
                            }
                        }
                    }
                }
            }
        }
    }
}
