use crate::edits::table_trees;
use crate::{insert_runs, trees};
use input_tree::editing::editable::Editable;
use input_tree::focus::MinimalInputGridRange;
use input_tree::grid::{GridRectangle, GridVec, Index2D};
use vcommon::*;

fn new_cell(i: usize) -> Row {
    vec![N::S(format!("N{i}"))]
}

/// A formula with identities, and where things are in it.
struct Tagged {
    t: Vec<T>,
    next: u32,
}
impl Tagged {
    fn new(r: &Row) -> Self {
        let mut next = 1;
        let t = tagged(r, &mut next);
        Tagged { t, next }
    }
    fn after(&self, e: &Edit) -> Tagged {
        let mut n = Tagged { t: self.t.clone(), next: self.next };
        t_apply(&mut n.t, e, &mut n.next);
        n
    }
}
/// A place in a row, named by identities only.
#[derive(Clone, Debug)]
struct Place {
    /// container identity and *identity of the cell* are needed to find the row again: cells have no identity of their
    /// own, so the cell is named by its index, adjusted for table edits by the caller.
    row: Option<(u32, usize)>,
    left: Option<u32>,
    right: Option<u32>,
}
fn place(t: &Tagged, p: &Pos) -> Place {
    let r = t_row(&t.t, &p.path);
    let row = p.path.split_last().map(|((i, c), up)| (t_row(&t.t, up)[*i].id, *c));
    Place { row, left: p.off.checked_sub(1).map(|i| r[i].id), right: r.get(p.off).map(|n| n.id) }
}
/// Index of a cell after a table edit of its own table; None if it was deleted.
fn cell_after(before: &Tagged, e: &Edit, container: u32, cell: usize) -> Option<usize> {
    let (path, index, rows, at, count, ins) = match e {
        Edit::GIns { path, index, rows, at, count, .. } => (path, index, *rows, *at, *count, true),
        Edit::GDel { path, index, rows, at, count, .. } => (path, index, *rows, *at, *count, false),
        _ => return Some(cell),
    };
    let t = &t_row(&before.t, path)[*index];
    if t.id != container {
        return Some(cell);
    }
    let ids: Vec<usize> = (0..t.cells.len()).collect();
    let after = if ins {
        let other = if rows { t.width } else { t.cells.len() / t.width };
        grid_insert(t.width, &ids, rows, at, count, &vec![usize::MAX; other * count]).1
    } else {
        grid_delete(t.width, &ids, rows, at, count).1
    };
    after.iter().position(|c| *c == cell)
}

/// Where does this position have to be after the edit? `sticky_left`: at an insertion point, stay in front of the new nodes.
fn oracle(before: &Tagged, after: &Tagged, e: &Edit, p: &Pos, sticky_left: bool) -> Option<Pos> {
    let pl = place(before, p);
    let row_path: Option<Path> = match pl.row {
        None => Some(vec![]),
        Some((c, cell)) => match (t_find(&after.t, c), cell_after(before, e, c, cell)) {
            (Some((mut up, i)), Some(cell)) => {
                up.push((i, cell));
                Some(up)
            }
            _ => None,
        },
    };
    let Some(row_path) = row_path else {
        // the row is gone: the place of the deletion
        return match e {
            Edit::Del { path, at, .. } => Some(pos(path, *at)),
            _ => None, // table deletion: no documented place
        };
    };
    let row = t_row(&after.t, &row_path);
    let find = |id: u32| row.iter().position(|n| n.id == id);
    if sticky_left {
        // directly behind the nearest surviving node on the left
        let old = t_row(&before.t, &p.path);
        for i in (0..p.off).rev() {
            if let Some(k) = find(old[i].id) {
                return Some(pos(&row_path, k + 1));
            }
        }
        Some(pos(&row_path, 0))
    } else {
        let old = t_row(&before.t, &p.path);
        for n in &old[p.off..] {
            if let Some(k) = find(n.id) {
                return Some(pos(&row_path, k));
            }
        }
        Some(pos(&row_path, row.len()))
    }
}

fn unimplemented_table_rebase(p: &PanicInfo, e: &Edit, row: &Path) -> bool {
    is_grid_edit(e) && p.msg == "not yet implemented" && p.file.ends_with("focus/row_range.rs") && row.starts_with(edit_row(e))
}

fn check_pos(l: &mut Local, tree: &Row, e: &Edit, real: &input_tree::editing::BasicEdit, before: &Tagged, after: &Tagged, new_tree: &Row, p: &Pos) -> Option<Pos> {
    l.transitions += 1;
    let got = guard(|| {
        let mut m = pos_to_real(p);
        m.apply_edit(real);
        pos_from_real(&m)
    });
    match got {
        Err(pi) => {
            if unimplemented_table_rebase(&pi, e, &p.path) {
                l.fail("table-edit-rebase-unimplemented", format!("{e:?} position {p:?}: {pi}"));
            } else {
                l.fail("position", format!("formula {} edit {e:?} position {p:?}: {pi}", show(tree)));
            }
            None
        }
        Ok(g) => {
            if !valid_pos(new_tree, &g) {
                l.fail("position", format!("formula {} edit {e:?}: position {p:?} became {g:?}, which does not exist in {}", show(tree), show(new_tree)));
                return None;
            }
            if let Some(w) = oracle(before, after, e, p, true) {
                if w != g {
                    l.fail("position", format!("formula {} edit {e:?}: position {p:?} became {g:?} but its place is now {w:?}", show(tree)));
                    return None;
                }
            }
            Some(g)
        }
    }
}

pub fn rebase_edits(tree: &Row) -> Vec<Edit> {
    let runs = insert_runs();
    let many: Row = (0..if tree.len() > 60 { 270 } else { 9 }).map(|i| sym(&format!("N{i}"))).collect();
    let mut es = row_edits(tree, &[runs[1].clone(), runs[2].clone(), runs[3].clone(), many], true);
    es.extend(table_edits(tree, 2, &new_cell));
    es
}

fn rebase_trees(ctx: &Ctx) -> Vec<Row> {
    union(vec![huge(), trees(ctx, (3, 4), (4, 5), true), all_trees(ctx.pick(5, 7), SMALL_KINDS), table_trees(2)])
}

pub fn c05(ctx: &Ctx) {
    let cases = rebase_trees(ctx);
    ctx.run("every position across every edit", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let before = Tagged::new(tree);
        for e in rebase_edits(tree) {
            let real = edit_to_real(&e);
            let mut new_tree = tree.clone();
            apply(&mut new_tree, &e);
            let after = before.after(&e);
            for p in &ps {
                check_pos(l, tree, &e, &real, &before, &after, &new_tree, p);
            }
        }
        l.max("depth", depth(tree) as u64);
    });
    // a position carried through a list of edits in one call
    let small = union(vec![all_trees(ctx.pick(2, 3), CORE_KINDS), all_trees(ctx.pick(3, 4), SMALL_KINDS)]);
    let runs = insert_runs();
    let runs = [runs[1].clone(), runs[3].clone()];
    ctx.run("every position across every list of two row edits", &small, row_json, || (), |_, tree, l| {
        l.states += 1;
        let ps = positions(tree);
        let before = Tagged::new(tree);
        for e1 in row_edits(tree, &runs, true) {
            let mut mid_tree = tree.clone();
            apply(&mut mid_tree, &e1);
            let mid = before.after(&e1);
            for e2 in row_edits(&mid_tree, &runs, true) {
                let end = mid.after(&e2);
                let real = [edit_to_real(&e1), edit_to_real(&e2)];
                l.traces += 1;
                for p in &ps {
                    let w = oracle(&before, &mid, &e1, p, true).unwrap();
                    let w = oracle(&mid, &end, &e2, &w, true).unwrap();
                    l.transitions += 2;
                    match guard(|| {
                        let mut m = pos_to_real(p);
                        m.apply_edits(&real);
                        pos_from_real(&m)
                    }) {
                        Err(pi) => return l.fail("position", format!("edits {e1:?}, {e2:?} position {p:?}: {pi}")),
                        Ok(g) if g != w => return l.fail("position", format!("edits {e1:?}, {e2:?}: position {p:?} became {g:?} but its place is now {w:?}")),
                        _ => {}
                    }
                }
            }
        }
    });
    lists(ctx);
}

/// Positions and ranges carried through lists of up to a dozen edits: one and the same edit, or two in turn.
fn lists(ctx: &Ctx) {
    let cases = union(vec![all_trees(ctx.pick(2, 3), CORE_KINDS), all_trees(ctx.pick(3, 4), SMALL_KINDS)]);
    ctx.run("every position and range across long lists of edits", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        for path in &rs {
            let n = row_at(tree, path).unwrap().len();
            for at in 0..=n {
                for count in [3usize, 5, 8, 12] {
                    // insert and take out again, in turn, and insert over and over
                    for style in 0..3 {
                        let edits: Vec<Edit> = (0..count)
                            .map(|k| {
                                let nodes = vec![sym(&format!("N{k}"))];
                                match style {
                                    0 => Edit::Ins { path: path.clone(), at, nodes },
                                    1 if k % 2 == 1 => Edit::Del { path: path.clone(), at, nodes: vec![sym(&format!("N{}", k - 1))] },
                                    2 if k % 3 == 2 => Edit::Del { path: path.clone(), at, nodes: vec![sym(&format!("N{}", k - 1))] },
                                    _ => Edit::Ins { path: path.clone(), at, nodes },
                                }
                            })
                            .collect();
                        let real: Vec<_> = edits.iter().map(edit_to_real).collect();
                        l.traces += 1;
                        let step = |r: &Rng| -> Result<Rng, PanicInfo> {
                            guard(|| {
                                let mut m = rng_to_real(r);
                                for e in &real {
                                    m.apply_edit(e);
                                }
                                rng_from_real(&m)
                            })
                        };
                        for p in &ps {
                            l.transitions += count as u64;
                            let one = |q: &Pos| guard(|| {
                                let mut m = pos_to_real(q);
                                for e in &real {
                                    m.apply_edit(e);
                                }
                                pos_from_real(&m)
                            });
                            let all = guard(|| {
                                let mut m = pos_to_real(p);
                                m.apply_edits(&real);
                                pos_from_real(&m)
                            });
                            if all.is_err() || all.as_ref().ok() != one(p).as_ref().ok() {
                                return l.fail("position", format!("edits {edits:?}: position {p:?} becomes {all:?} in one call, {:?} one edit after the other", one(p)));
                            }
                            for t in 0..=row_at(tree, &p.path).unwrap().len() {
                                let r: Rng = (p.path.clone(), p.off, t);
                                let all = guard(|| {
                                    let mut m = rng_to_real(&r);
                                    m.apply_edits(&real);
                                    rng_from_real(&m)
                                });
                                if all.is_err() || all.as_ref().ok() != step(&r).as_ref().ok() {
                                    return l.fail("range", format!("edits {edits:?}: range {r:?} becomes {all:?} in one call, {:?} one edit after the other", step(&r)));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

pub fn c06(ctx: &Ctx) {
    let cases = rebase_trees(ctx);
    ctx.run("every range across every edit", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        let before = Tagged::new(tree);
        let rs = rows(tree);
        for e in rebase_edits(tree) {
            let real = edit_to_real(&e);
            let mut new_tree = tree.clone();
            apply(&mut new_tree, &e);
            let after = before.after(&e);
            for path in &rs {
                let offs = offsets(row_at(tree, path).unwrap().len());
                for &s in &offs {
                    for &t in &offs {
                        if l.failed() && !is_grid_edit(&e) {
                            return;
                        }
                        check_range(l, tree, &e, &real, &before, &after, &new_tree, &(path.clone(), s, t));
                    }
                }
            }
        }
    });
    // longer lists of edits in one call
    lists(ctx);
    // table selections
    let tables = table_trees(2);
    ctx.run("table selections across every edit", &tables, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        for (path, index) in nodes(tree) {
            let N::C(V::Table, w, cells) = &row_at(tree, &path).unwrap()[index] else { continue };
            let grid = GridVec::from_one_dimensional(cells.iter().map(to_real).collect(), *w);
            for e in rebase_edits(tree) {
                let real = edit_to_real(&e);
                for a in 0..cells.len() {
                    for b in 0..cells.len() {
                        l.transitions += 1;
                        let r = guard(|| {
                            let rect = GridRectangle::from_indices_inclusive(Index2D::from_index(a, &grid), Index2D::from_index(b, &grid), &grid);
                            let mut m = MinimalInputGridRange { row_indices: path_to_real(&path), index, range: rect };
                            m.apply_edit(&real);
                            (m.clone(), rect)
                        });
                        match r {
                            Err(pi) if pi.msg == "not yet implemented" && pi.file.ends_with("focus/grid_range.rs") => {
                                l.fail("table-selection-rebase-unimplemented", format!("{e:?}: {pi}"));
                            }
                            Err(pi) => l.fail("grid-range", format!("formula {} edit {e:?} selection of node {index} in {path:?} cells {a}..{b}: {pi}", show(tree))),
                            Ok((m, rect)) => {
                                // implemented: edits elsewhere leave the selection alone, edits before it shift it
                                let before = Tagged::new(tree);
                                let after = before.after(&e);
                                let id = t_row(&before.t, &path)[index].id;
                                if let (Some((np, ni)), false) = (t_find(&after.t, id), is_grid_edit(&e)) {
                                    let want = MinimalInputGridRange { row_indices: path_to_real(&np), index: ni, range: rect };
                                    if want != m {
                                        l.fail("grid-range", format!("formula {} edit {e:?}: table selection became {m:?} instead of {want:?}", show(tree)));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn check_range(l: &mut Local, tree: &Row, e: &Edit, real: &input_tree::editing::BasicEdit, before: &Tagged, after: &Tagged, new_tree: &Row, r: &Rng) {
    l.transitions += 1;
    let got = guard(|| {
        let mut m = rng_to_real(r);
        m.apply_edit(real);
        rng_from_real(&m)
    });
    let (path, s, t) = r;
    let forwards = s <= t;
    let (lo, hi) = (*s.min(t), *s.max(t));
    match got {
        Err(pi) => {
            if unimplemented_table_rebase(&pi, e, path) {
                l.fail("table-edit-rebase-unimplemented", format!("{e:?} range {r:?}: {pi}"));
            } else {
                l.fail("range", format!("formula {} edit {e:?} range {r:?}: {pi}", show(tree)));
            }
        }
        Ok((gp, gs, gt)) => {
            let valid = row_at(new_tree, &gp).map(|row| gs <= row.len() && gt <= row.len()).unwrap_or(false);
            if !valid {
                return l.fail("range", format!("formula {} edit {e:?}: range {r:?} became {:?}, which does not exist in {}", show(tree), (gp, gs, gt), show(new_tree)));
            }
            let a = oracle(before, after, e, &pos(path, lo), true);
            // A deletion has no inserted nodes to include, so both ends use the same rule; an insertion at the right edge is included.
            let b = oracle(before, after, e, &pos(path, hi), matches!(e, Edit::Del { .. }));
            if let (Some(a), Some(b)) = (a, b) {
                let want = if a.path != b.path {
                    return l.fail("range", "oracle: ends of a range separated".to_string());
                } else if forwards {
                    (a.path, a.off, b.off)
                } else {
                    (a.path, b.off, a.off)
                };
                if (&gp, gs, gt) != (&want.0, want.1, want.2) {
                    l.fail("range", format!("formula {} edit {e:?}: range {r:?} became {:?} but should be {want:?}", show(tree), (gp, gs, gt)));
                }
            }
        }
    }
}
