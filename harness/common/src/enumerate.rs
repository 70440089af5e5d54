//! Exhaustive enumeration of formulas.
use crate::model::*;
use std::collections::HashSet;

/// A kind of container: variant, width, number of cells.
pub type Kind = (V, usize, usize);
pub const ALL_KINDS: &[Kind] = &[
    (V::Frac, 1, 2),
    (V::Root, 2, 2),
    (V::Sup, 1, 1),
    (V::Sub, 1, 1),
    (V::Table, 1, 1),
    (V::Table, 2, 2),
    (V::Table, 1, 2),
    (V::Table, 2, 4),
];
/// One representative per number of cells / resizability: the structure of the addressing code.
pub const CORE_KINDS: &[Kind] = &[(V::Frac, 1, 2), (V::Sup, 1, 1), (V::Table, 2, 4)];
pub const SMALL_KINDS: &[Kind] = &[(V::Frac, 1, 2), (V::Sup, 1, 1)];

/// All rows of total weight exactly n (symbol = 1, container = 1 + its cells), for n = 0..=max.
pub fn rows_up_to(max: usize, kinds: &[Kind]) -> Vec<Vec<Row>> {
    let mut rows: Vec<Vec<Row>> = vec![vec![vec![]]];
    let mut nodes: Vec<Vec<N>> = vec![vec![]];
    for n in 1..=max {
        // nodes of weight n use rows of weight < n
        let mut nn: Vec<N> = vec![];
        if n == 1 {
            nn.push(sym("x"));
        }
        for (v, w, c) in kinds {
            let mut acc: Vec<(usize, Vec<Row>)> = vec![(0, vec![])];
            for _ in 0..*c {
                let mut next = vec![];
                for (used, cells) in &acc {
                    for k in 0..=(n - 1 - used) {
                        for r in &rows[k] {
                            let mut cs = cells.clone();
                            cs.push(r.clone());
                            next.push((used + k, cs));
                        }
                    }
                }
                acc = next;
            }
            for (used, cells) in acc {
                if used == n - 1 {
                    nn.push(N::C(*v, *w, cells));
                }
            }
        }
        nodes.push(nn);
        let mut rr: Vec<Row> = vec![];
        for first in 1..=n {
            for node in &nodes[first] {
                for rest in &rows[n - first] {
                    let mut r = vec![node.clone()];
                    r.extend(rest.iter().cloned());
                    rr.push(r);
                }
            }
        }
        rows.push(rr);
    }
    rows
}
/// All labelled formulas of weight <= max.
pub fn all_trees(max: usize, kinds: &[Kind]) -> Vec<Row> {
    rows_up_to(max, kinds).into_iter().flatten().map(|r| relabel(&r)).collect()
}

/// A flat row of n symbols
pub fn flat(n: usize) -> Row {
    (0..n).map(|_| sym("x")).collect()
}
/// `inner` wrapped in `kind`, in cell `cell`, with `before`/`after` symbols around, other cells holding `other` symbols.
pub fn wrap_in(kind: Kind, cell: usize, inner: Row, before: usize, after: usize, other: usize) -> Row {
    let (v, w, c) = kind;
    let mut cells: Vec<Row> = (0..c).map(|_| flat(other)).collect();
    cells[cell] = inner;
    let mut r = flat(before);
    r.push(N::C(v, w, cells));
    r.extend(flat(after));
    r
}
/// Families that each grow one dimension well past the exhaustive budget.
pub fn families(long: usize, deep: usize, table: usize) -> Vec<Row> {
    let mut out: Vec<Row> = vec![];
    for n in 0..=long {
        out.push(flat(n));
        // a container at every place of a long row
        if n >= 2 && n % 2 == 0 {
            for i in [0, n / 2, n - 1] {
                let mut r = flat(n);
                r[i] = N::C(V::Frac, 1, vec![flat(2), flat(1)]);
                out.push(r);
            }
        }
    }
    // many containers in one row
    for n in 1..=(long / 2) {
        out.push((0..n).map(|i| N::C(V::Sup, 1, vec![flat(i % 3)])).collect());
        out.push((0..n).map(|i| if i % 2 == 0 { N::C(V::Frac, 1, vec![flat(1), vec![]]) } else { sym("x") }).collect());
    }
    // deep chains: every level through the first or last cell, with and without neighbours
    for kind in [(V::Frac, 1, 2), (V::Root, 2, 2), (V::Sup, 1, 1), (V::Sub, 1, 1), (V::Table, 2, 4)] {
        for (b, a, o) in [(0, 0, 0), (1, 1, 0), (2, 0, 1)] {
            for last in [false, true] {
                let mut r = flat(1);
                for _ in 0..deep {
                    r = wrap_in(kind, if last { kind.2 - 1 } else { 0 }, r, b, a, o);
                    out.push(r.clone());
                }
            }
        }
    }
    // alternating kinds
    let ks = [(V::Frac, 1, 2), (V::Table, 2, 4), (V::Sub, 1, 1), (V::Root, 2, 2), (V::Sup, 1, 1)];
    for start in 0..ks.len() {
        let mut r = flat(1);
        for d in 0..deep {
            let k = ks[(start + d) % ks.len()];
            r = wrap_in(k, (start + d) % k.2, r, (start + d) % 3, d % 2, (d + 1) % 2);
            out.push(r.clone());
        }
    }
    // tables of every size, alone and nested
    for w in 1..=table {
        for h in 1..=table {
            let cells: Vec<Row> = (0..w * h).map(|i| flat(i % 3)).collect();
            let t = N::C(V::Table, w, cells);
            out.push(vec![t.clone()]);
            out.push(vec![sym("x"), t.clone(), sym("x")]);
            out.push(vec![N::C(V::Frac, 1, vec![flat(1), vec![sym("x"), t.clone()]])]);
            if w * h <= 6 {
                let inner = N::C(V::Table, 2, vec![flat(1), flat(0), vec![t.clone(), sym("x")], flat(2)]);
                out.push(vec![inner]);
            }
        }
    }
    let mut seen = HashSet::new();
    out.into_iter().map(|r| relabel(&r)).filter(|r| seen.insert(r.clone())).collect()
}
/// A few formulas far larger than everything that is enumerated: counts with two digits in every
/// dimension (length of a row, containers in a row, depth, rows and columns of a table).
pub fn large() -> Vec<Row> {
    let mut out = vec![flat(40)];
    let mut r = flat(24);
    r[13] = N::C(V::Root, 2, vec![flat(11), flat(2)]);
    r[20] = N::C(V::Table, 3, (0..12).map(|i| flat(i % 2)).collect());
    out.push(r);
    let mut r = flat(34);
    r[32] = N::C(V::Frac, 1, vec![flat(1), flat(2)]);
    out.push(r);
    let ks = [(V::Frac, 1, 2), (V::Sup, 1, 1), (V::Table, 2, 4), (V::Sub, 1, 1), (V::Root, 2, 2)];
    out.push((0..17).map(|i| { let k = ks[i % 5]; N::C(k.0, k.1, vec![flat(i % 2); k.2]) }).collect());
    for kind in [(V::Frac, 1, 2), (V::Sup, 1, 1)] {
        let mut r = flat(2);
        for d in 0..14 {
            r = wrap_in(kind, d % kind.2, r, 1, d % 2, 0);
        }
        out.push(r);
    }
    let mut r = flat(1);
    for d in 0..11 {
        let k = ks[d % 5];
        r = wrap_in(k, k.2 - 1, r, d % 3, 1, 0);
    }
    out.push(r);
    for (w, h) in [(1, 13), (13, 1), (5, 6), (11, 3), (4, 11)] {
        let t = N::C(V::Table, w, (0..w * h).map(|i| flat((i + i / w) % 2)).collect());
        out.push(vec![t.clone()]);
        if w * h < 20 {
            out.push(vec![N::C(V::Frac, 1, vec![vec![], vec![sym("x"), t]])]);
        }
    }
    // tables with a single cell that is not empty
    for (w, h) in [(3, 3), (2, 5), (5, 2)] {
        for k in 0..w * h {
            out.push(vec![N::C(V::Table, w, (0..w * h).map(|i| flat((i == k) as usize)).collect())]);
        }
    }
    out.push(vec![N::C(V::Table, 4, vec![vec![]; 12]), sym("x")]);
    out.iter().map(relabel).collect()
}
/// Rows of hundreds of nodes, cells with numbers of three digits, and nestings far deeper than any formula one would write.
pub fn huge() -> Vec<Row> {
    let frac = |a: usize, b: usize| N::C(V::Frac, 1, vec![flat(a), flat(b)]);
    let mut out = vec![flat(300)];
    let mut r = flat(290);
    r[130] = N::C(V::Sup, 1, vec![flat(2)]);
    r[262] = frac(1, 2);
    out.push(r);
    let mut r = flat(70);
    r[66] = N::C(V::Table, 2, vec![flat(1), vec![], vec![], flat(2)]);
    out.push(vec![sym("x"), N::C(V::Root, 2, vec![vec![], r])]);
    for (w, h) in [(18, 2), (2, 20), (17, 16)] {
        out.push(vec![sym("x"), N::C(V::Table, w, (0..w * h).map(|i| flat((i % 5 == 0) as usize)).collect())]);
    }
    let ks = [(V::Frac, 1, 2), (V::Sup, 1, 1), (V::Table, 2, 4), (V::Sub, 1, 1), (V::Root, 2, 2)];
    let mut r = flat(1);
    for d in 0..40 {
        let k = ks[d % 5];
        r = wrap_in(k, k.2 - 1, r, d % 2, 0, 0);
    }
    out.push(r);
    out.iter().map(relabel).collect()
}
/// The positions that are explored as ends of selections: all of them, except in formulas made for their size (`huge`).
pub fn chosen(tree: &Row, ps: &[Pos]) -> Vec<Pos> {
    if ps.len() <= 120 {
        return ps.to_vec();
    }
    let ok = |p: &Pos| {
        let mut row = tree;
        for (i, c) in &p.path {
            let cells = row[*i].cells();
            if !offsets(cells.len()).contains(c) {
                return false;
            }
            row = &cells[*c];
        }
        offsets(row.len()).contains(&p.off)
    };
    ps.iter().filter(|p| ok(p)).cloned().collect()
}
/// Symbols that code may be tempted to treat in a special way.
pub const ODD: [&str; 26] = [
    "x", " ", "", "\t", "\n", "\u{a0}", "X", "\"", "\\", "'", "(", ")", "[", "]", "|", ",", "0", "e\u{301}", "\u{e9}", "\u{301}", "\u{1F468}\u{200D}\u{1F469}", "\u{10FFFF}", "ab", "Symbol", "x\u{200b}", "\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}\u{200D}\u{1F466}",
];
/// The same shapes as everywhere else, but with all symbols alike, and with odd symbols.
pub fn alike(max: usize) -> Vec<Row> {
    fn name(r: &Row, next: &mut dyn FnMut() -> String) -> Row {
        r.iter()
            .map(|n| match n {
                N::S(_) => N::S(next()),
                N::C(v, w, c) => N::C(*v, *w, c.iter().map(|c| name(c, next)).collect()),
            })
            .collect()
    }
    let mut out = vec![];
    for t in all_trees(max, ALL_KINDS).into_iter().filter(|t| symbols(t).len() > 1) {
        out.push(name(&t, &mut || "x".into()));
    }
    let mut k = 0;
    let mut odd = |r: &Row| {
        name(r, &mut || {
            k += 1;
            ODD[k % ODD.len()].to_string()
        })
    };
    let two: Vec<Row> = all_trees(2, ALL_KINDS);
    for _ in 0..3 {
        out.extend(two.iter().map(&mut odd));
    }
    out.push(odd(&flat(ODD.len())));
    out.push(ODD.iter().flat_map(|s| [sym(s), sym(s)]).take(30).collect());
    out.push(odd(&wrap_in((V::Table, 2, 4), 2, flat(5), 2, 3, 1)));
    out.push(odd(&wrap_in((V::Root, 2, 2), 1, wrap_in((V::Sup, 1, 1), 0, flat(3), 1, 1, 0), 3, 2, 2)));
    // containers that are equal to their neighbours
    for kind in [(V::Frac, 1, 2), (V::Sup, 1, 1), (V::Table, 2, 4)] {
        let one = N::C(kind.0, kind.1, vec![vec![sym("x")]; kind.2]);
        out.push(vec![one.clone(), one.clone(), one.clone()]);
        out.push(vec![N::C(kind.0, kind.1, vec![vec![one.clone(), one.clone()]; kind.2]); 2]);
    }
    union(vec![out])
}
/// Union without duplicates, order preserved.
pub fn union(parts: Vec<Vec<Row>>) -> Vec<Row> {
    let mut seen = HashSet::new();
    parts.into_iter().flatten().filter(|r| seen.insert(r.clone())).collect()
}
