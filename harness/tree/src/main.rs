//! Checks of the input tree (C01..C13).
mod edits;
mod focus;
mod grids;
mod rebase;
mod text;
use vcommon::*;

/// The formulas that structural checks range over: every formula up to a weight, then families.
pub fn trees(ctx: &Ctx, quick: (usize, usize), thorough: (usize, usize), fam: bool) -> Vec<Row> {
    let (all, core) = ctx.pick(quick, thorough);
    let mut parts = if fam { vec![large(), alike(ctx.pick(3, 4))] } else { vec![] };
    parts.extend([all_trees(all, ALL_KINDS), all_trees(core, CORE_KINDS)]);
    if fam {
        parts.push(all_trees(ctx.pick(6, 7), SMALL_KINDS));
        parts.push(ctx.pick(families(12, 5, 3), families(16, 7, 5)));
    }
    union(parts)
}

pub fn insert_runs() -> Vec<Row> {
    vec![
        vec![],
        vec![sym("N0")],
        vec![sym("N0"), sym("N1"), sym("N2")],
        vec![N::C(V::Frac, 1, vec![vec![sym("N0")], vec![]])],
        // like nodes that are there already, and odd ones
        vec![sym("x"), sym("x"), N::C(V::Frac, 1, vec![vec![], vec![]]), sym(""), sym(" "), sym("x")],
        vec![sym("N0"), N::C(V::Sup, 1, vec![vec![sym("N1")]]), N::C(V::Table, 2, vec![vec![], vec![sym("N2")]])],
    ]
}
/// The same, and for long rows also a long one.
pub fn insert_runs_for(tree: &Row) -> Vec<Row> {
    let mut runs = insert_runs();
    if tree.len() > 8 {
        runs.push((0..13).map(|i| sym(&format!("N{i}"))).collect());
    }
    if tree.len() > 60 {
        runs.truncate(2);
        runs.push((0..33).map(|i| sym(&format!("N{i}"))).collect());
        runs.push((0..270).map(|i| sym(&format!("N{i}"))).collect());
    }
    runs
}

fn main() {
    main_with(&[
        ("C01", edits::c01),
        ("C02", edits::c02),
        ("C03", edits::c03),
        ("C04", edits::c04),
        ("C05", rebase::c05),
        ("C06", rebase::c06),
        ("C07", focus::c07),
        ("C08", focus::c08),
        ("C09", focus::c09),
        ("C10", grids::c10),
        ("C11", grids::c11),
        ("C12", text::c12),
        ("C13", text::c13),
    ])
}
