//! The reference model: formulas as plain nested vectors, addresses as plain paths.
//! Nothing in here calls into /repo except the two conversion functions at the end.
use input_tree::{
    focus::{MinimalInputRowPosition, MinimalInputRowRange},
    grid::{Grid, GridVec},
    node::{InputNode, InputNodeVariant},
    row::{InputRow, Offset, RowIndex, RowIndices},
};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum V {
    Frac,
    Root,
    Sup,
    Sub,
    Table,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum N {
    S(String),
    /// kind, width, cells in reading order
    C(V, usize, Vec<Row>),
}
pub type Row = Vec<N>;
/// (index of the container in its row, index of the cell in the container), outermost first
pub type Path = Vec<(usize, usize)>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Pos {
    pub path: Path,
    pub off: usize,
}

pub fn pos(path: &[(usize, usize)], off: usize) -> Pos {
    Pos { path: path.to_vec(), off }
}

pub fn sym(s: &str) -> N {
    N::S(s.to_string())
}

impl N {
    pub fn cells(&self) -> &[Row] {
        match self {
            N::S(_) => &[],
            N::C(_, _, c) => c,
        }
    }
    pub fn is_sym(&self) -> bool {
        matches!(self, N::S(_))
    }
    pub fn weight(&self) -> usize {
        1 + self.cells().iter().map(row_weight).sum::<usize>()
    }
}
pub fn row_weight(r: &Row) -> usize {
    r.iter().map(|n| n.weight()).sum()
}

pub fn row_at<'a>(root: &'a Row, path: &[(usize, usize)]) -> Option<&'a Row> {
    let mut r = root;
    for (i, c) in path {
        r = r.get(*i)?.cells().get(*c)?;
    }
    Some(r)
}
pub fn row_at_mut<'a>(root: &'a mut Row, path: &[(usize, usize)]) -> Option<&'a mut Row> {
    let mut r = root;
    for (i, c) in path {
        match r.get_mut(*i)? {
            N::S(_) => return None,
            N::C(_, _, cells) => r = cells.get_mut(*c)?,
        }
    }
    Some(r)
}
pub fn valid_pos(root: &Row, p: &Pos) -> bool {
    row_at(root, &p.path).map(|r| p.off <= r.len()).unwrap_or(false)
}

/// All row addresses, outermost first (pre-order).
pub fn rows(root: &Row) -> Vec<Path> {
    fn go(r: &Row, path: &mut Path, out: &mut Vec<Path>) {
        out.push(path.clone());
        for (i, n) in r.iter().enumerate() {
            for (c, cell) in n.cells().iter().enumerate() {
                path.push((i, c));
                go(cell, path, out);
                path.pop();
            }
        }
    }
    let mut out = vec![];
    go(root, &mut vec![], &mut out);
    out
}

/// All caret positions in reading order: walk left to right, entering every container and visiting
/// its cells in order.
pub fn positions(root: &Row) -> Vec<Pos> {
    fn go(r: &Row, path: &mut Path, out: &mut Vec<Pos>) {
        out.push(pos(path, 0));
        for (i, n) in r.iter().enumerate() {
            for (c, cell) in n.cells().iter().enumerate() {
                path.push((i, c));
                go(cell, path, out);
                path.pop();
            }
            out.push(pos(path, i + 1));
        }
    }
    let mut out = vec![];
    go(root, &mut vec![], &mut out);
    out
}

/// Addresses of all nodes: (row path, index)
pub fn nodes(root: &Row) -> Vec<(Path, usize)> {
    let mut out = vec![];
    for p in rows(root) {
        for i in 0..row_at(root, &p).unwrap().len() {
            out.push((p.clone(), i));
        }
    }
    out
}

/// All symbols in reading order.
pub fn symbols(r: &Row) -> Vec<String> {
    fn go(r: &Row, out: &mut Vec<String>) {
        for n in r {
            match n {
                N::S(s) => out.push(s.clone()),
                N::C(_, _, cells) => cells.iter().for_each(|c| go(c, out)),
            }
        }
    }
    let mut out = vec![];
    go(r, &mut out);
    out
}
pub fn containers(r: &Row) -> usize {
    r.iter()
        .map(|n| match n {
            N::S(_) => 0,
            N::C(_, _, cells) => 1 + cells.iter().map(containers).sum::<usize>(),
        })
        .sum()
}
pub fn depth(r: &Row) -> usize {
    r.iter()
        .flat_map(|n| n.cells().iter().map(|c| 1 + depth(c)))
        .max()
        .unwrap_or(0)
}

/// Gives every symbol its own label, in reading order: a, b, c, ...
pub fn relabel(r: &Row) -> Row {
    fn go(r: &Row, k: &mut usize) -> Row {
        r.iter()
            .map(|n| match n {
                N::S(_) => {
                    let l = label(*k);
                    *k += 1;
                    N::S(l)
                }
                N::C(v, w, cells) => N::C(*v, *w, cells.iter().map(|c| go(c, k)).collect()),
            })
            .collect()
    }
    go(r, &mut 0)
}
pub fn label(k: usize) -> String {
    if k < 26 {
        ((b'a' + k as u8) as char).to_string()
    } else {
        format!("s{}", k)
    }
}

/// Is the position covered by nodes lo..hi of the row at `path`?
pub fn covers(path: &Path, lo: usize, hi: usize, p: &Pos) -> bool {
    if &p.path == path {
        lo <= p.off && p.off <= hi
    } else if p.path.starts_with(path) {
        let i = p.path[path.len()].0;
        lo <= i && i < hi
    } else {
        false
    }
}
/// Brute force: among all ranges of all rows the deepest, then shortest, that covers both.
pub fn minimal_cover(tree: &Row, rows: &[Path], a: &Pos, b: &Pos) -> (Path, usize, usize) {
    let mut best: Option<(usize, usize, Path, usize, usize)> = None;
    for p in rows {
        if !a.path.starts_with(p) || !b.path.starts_with(p) {
            continue;
        }
        let n = row_at(tree, p).unwrap().len();
        for lo in 0..=n {
            for hi in lo..=n {
                if covers(p, lo, hi, a) && covers(p, lo, hi, b) {
                    let cand = (p.len(), hi - lo, p.clone(), lo, hi);
                    let better = match &best {
                        None => true,
                        Some(x) => cand.0 > x.0 || (cand.0 == x.0 && cand.1 < x.1),
                    };
                    if better {
                        best = Some(cand);
                    }
                }
            }
        }
    }
    let (_, _, p, lo, hi) = best.unwrap();
    (p, lo, hi)
}

// ---------------------------------------------------------------- identities

/// A copy of a formula in which every node carries an identity.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct T {
    pub id: u32,
    pub width: usize,
    pub cells: Vec<Vec<T>>,
}
pub fn tagged(r: &Row, next: &mut u32) -> Vec<T> {
    r.iter()
        .map(|n| {
            let id = *next;
            *next += 1;
            T {
                id,
                width: if let N::C(_, w, _) = n { *w } else { 0 },
                cells: n.cells().iter().map(|c| tagged(c, next)).collect(),
            }
        })
        .collect()
}
pub fn t_row<'a>(root: &'a [T], path: &[(usize, usize)]) -> &'a [T] {
    let mut r = root;
    for (i, c) in path {
        r = &r[*i].cells[*c];
    }
    r
}
pub fn t_row_mut<'a>(root: &'a mut Vec<T>, path: &[(usize, usize)]) -> &'a mut Vec<T> {
    let mut r = root;
    for (i, c) in path {
        r = &mut r[*i].cells[*c];
    }
    r
}
/// Where is the node with this identity? (row path, index)
pub fn t_find(root: &[T], id: u32) -> Option<(Path, usize)> {
    fn go(r: &[T], id: u32, path: &mut Path) -> Option<usize> {
        for (i, n) in r.iter().enumerate() {
            if n.id == id {
                return Some(i);
            }
            for (c, cell) in n.cells.iter().enumerate() {
                path.push((i, c));
                if let Some(x) = go(cell, id, path) {
                    return Some(x);
                }
                path.pop();
            }
        }
        None
    }
    let mut path = vec![];
    go(root, id, &mut path).map(|i| (path, i))
}

// ---------------------------------------------------------------- edits

/// Model of the repository's edits.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Edit {
    Ins { path: Path, at: usize, nodes: Row },
    Del { path: Path, at: usize, nodes: Row },
    /// rows = true: whole rows, otherwise whole columns. `cells` in reading order of the inserted/deleted block.
    GIns { path: Path, index: usize, rows: bool, at: usize, count: usize, cells: Vec<Row> },
    GDel { path: Path, index: usize, rows: bool, at: usize, count: usize, cells: Vec<Row> },
}

pub fn grid_insert<X: Clone>(w: usize, cells: &[X], rows: bool, at: usize, count: usize, new: &[X]) -> (usize, Vec<X>) {
    let mut m = to_matrix(w, cells);
    if rows {
        let block: Vec<Vec<X>> = new.chunks(w).map(|c| c.to_vec()).collect();
        assert_eq!(block.len(), count);
        m.splice(at..at, block);
        (w, m.concat())
    } else {
        let block: Vec<Vec<X>> = new.chunks(count).map(|c| c.to_vec()).collect();
        for (row, b) in m.iter_mut().zip(block) {
            row.splice(at..at, b);
        }
        (w + count, m.concat())
    }
}
pub fn grid_delete<X: Clone>(w: usize, cells: &[X], rows: bool, at: usize, count: usize) -> (usize, Vec<X>) {
    let mut m = to_matrix(w, cells);
    if rows {
        m.drain(at..at + count);
        (w, m.concat())
    } else {
        for row in m.iter_mut() {
            row.drain(at..at + count);
        }
        (w - count, m.concat())
    }
}
/// The cells of the block of whole rows/columns.
pub fn grid_block<X: Clone>(w: usize, cells: &[X], rows: bool, at: usize, count: usize) -> Vec<X> {
    let m = to_matrix(w, cells);
    if rows {
        m[at..at + count].concat()
    } else {
        m.iter().flat_map(|r| r[at..at + count].to_vec()).collect()
    }
}
fn to_matrix<X: Clone>(w: usize, cells: &[X]) -> Vec<Vec<X>> {
    cells.chunks(w).map(|c| c.to_vec()).collect()
}

pub fn apply(root: &mut Row, e: &Edit) {
    match e {
        Edit::Ins { path, at, nodes } => {
            let r = row_at_mut(root, path).unwrap();
            r.splice(*at..*at, nodes.iter().cloned());
        }
        Edit::Del { path, at, nodes } => {
            let r = row_at_mut(root, path).unwrap();
            let gone: Row = r.drain(*at..*at + nodes.len()).collect();
            assert_eq!(&gone, nodes);
        }
        Edit::GIns { path, index, rows, at, count, cells } => {
            if let N::C(_, w, c) = &mut row_at_mut(root, path).unwrap()[*index] {
                let (nw, nc) = grid_insert(*w, c, *rows, *at, *count, cells);
                *w = nw;
                *c = nc;
            } else {
                panic!()
            }
        }
        Edit::GDel { path, index, rows, at, count, .. } => {
            if let N::C(_, w, c) = &mut row_at_mut(root, path).unwrap()[*index] {
                let (nw, nc) = grid_delete(*w, c, *rows, *at, *count);
                *w = nw;
                *c = nc;
            } else {
                panic!()
            }
        }
    }
}
pub fn inverse(e: &Edit) -> Edit {
    match e.clone() {
        Edit::Ins { path, at, nodes } => Edit::Del { path, at, nodes },
        Edit::Del { path, at, nodes } => Edit::Ins { path, at, nodes },
        Edit::GIns { path, index, rows, at, count, cells } => Edit::GDel { path, index, rows, at, count, cells },
        Edit::GDel { path, index, rows, at, count, cells } => Edit::GIns { path, index, rows, at, count, cells },
    }
}
pub fn edit_row(e: &Edit) -> &Path {
    match e {
        Edit::Ins { path, .. } | Edit::Del { path, .. } | Edit::GIns { path, .. } | Edit::GDel { path, .. } => path,
    }
}
pub fn is_grid_edit(e: &Edit) -> bool {
    matches!(e, Edit::GIns { .. } | Edit::GDel { .. })
}

/// The same edit on the tagged copy; inserted nodes get fresh identities.
pub fn t_apply(root: &mut Vec<T>, e: &Edit, next: &mut u32) {
    match e {
        Edit::Ins { path, at, nodes } => {
            let new = tagged(nodes, next);
            t_row_mut(root, path).splice(*at..*at, new);
        }
        Edit::Del { path, at, nodes } => {
            t_row_mut(root, path).drain(*at..*at + nodes.len());
        }
        Edit::GIns { path, index, rows, at, count, cells } => {
            let new: Vec<Vec<T>> = cells.iter().map(|c| tagged(c, next)).collect();
            let t = &mut t_row_mut(root, path)[*index];
            let (w, c) = grid_insert(t.width, &t.cells, *rows, *at, *count, &new);
            t.width = w;
            t.cells = c;
        }
        Edit::GDel { path, index, rows, at, count, .. } => {
            let t = &mut t_row_mut(root, path)[*index];
            let (w, c) = grid_delete(t.width, &t.cells, *rows, *at, *count);
            t.width = w;
            t.cells = c;
        }
    }
}

/// All row edits of a formula: every deletion of a contiguous run, and the insertion of every given run at every position.
/// The offsets of a row that are explored: all of them, except in rows of hundreds of nodes - there both ends and the
/// surroundings of powers of two.
pub fn offsets(len: usize) -> Vec<usize> {
    (0..=len).filter(|i| len <= 60 || *i < 2 || i + 2 > len || [64, 128, 256].iter().any(|p| i.abs_diff(*p) < 3) || *i == 13).collect()
}
pub fn row_edits(root: &Row, inserts: &[Row], with_deletes: bool) -> Vec<Edit> {
    let mut out = vec![];
    for path in rows(root) {
        let r = row_at(root, &path).unwrap();
        let offs = offsets(r.len());
        for &at in &offs {
            for nodes in inserts {
                out.push(Edit::Ins { path: path.clone(), at, nodes: nodes.clone() });
            }
            if with_deletes {
                for &to in offs.iter().filter(|to| **to >= at) {
                    out.push(Edit::Del { path: path.clone(), at, nodes: r[at..to].to_vec() });
                }
            }
        }
    }
    out
}
/// All table edits of a formula: insertion of `1..=max` rows/columns of fresh cells at every index, every deletion that
/// leaves at least one row and one column.
pub fn table_edits(root: &Row, max: usize, cell: &dyn Fn(usize) -> Row) -> Vec<Edit> {
    let mut out = vec![];
    for (path, index) in nodes(root) {
        if let N::C(V::Table, w, cells) = &row_at(root, &path).unwrap()[index] {
            let w = *w;
            let h = cells.len() / w;
            for rows in [true, false] {
                let n = if rows { h } else { w };
                let other = if rows { w } else { h };
                for at in 0..=n {
                    for count in 1..=max {
                        let new: Vec<Row> = (0..count * other).map(cell).collect();
                        out.push(Edit::GIns { path: path.clone(), index, rows, at, count, cells: new });
                    }
                    for count in 1..=(n - at) {
                        if count < n {
                            out.push(Edit::GDel {
                                path: path.clone(),
                                index,
                                rows,
                                at,
                                count,
                                cells: grid_block(w, cells, rows, at, count),
                            });
                        }
                    }
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- text form (for replays and messages)

pub fn row_json(r: &Row) -> Value {
    Value::Array(
        r.iter()
            .map(|n| match n {
                N::S(s) => json!(s),
                N::C(v, w, cells) => {
                    let mut a = vec![json!(format!("{:?}", v)), json!(w)];
                    a.extend(cells.iter().map(row_json));
                    Value::Array(a)
                }
            })
            .collect(),
    )
}
pub fn row_from_json(v: &Value) -> Row {
    v.as_array()
        .expect("row")
        .iter()
        .map(|n| match n {
            Value::String(s) => N::S(s.clone()),
            Value::Array(a) => N::C(
                match a[0].as_str().unwrap() {
                    "Frac" => V::Frac,
                    "Root" => V::Root,
                    "Sup" => V::Sup,
                    "Sub" => V::Sub,
                    _ => V::Table,
                },
                a[1].as_u64().unwrap() as usize,
                a[2..].iter().map(row_from_json).collect(),
            ),
            _ => panic!("node"),
        })
        .collect()
}
pub fn show(r: &Row) -> String {
    row_json(r).to_string()
}

// ---------------------------------------------------------------- conversion

pub fn to_real(r: &Row) -> InputRow {
    InputRow::new(r.iter().map(node_to_real).collect())
}
pub fn node_to_real(n: &N) -> InputNode {
    match n {
        N::S(s) => InputNode::Symbol(s.clone()),
        N::C(v, w, cells) => InputNode::Container(
            match v {
                V::Frac => InputNodeVariant::Fraction,
                V::Root => InputNodeVariant::Root,
                V::Sup => InputNodeVariant::Sup,
                V::Sub => InputNodeVariant::Sub,
                V::Table => InputNodeVariant::Table,
            },
            GridVec::from_one_dimensional(cells.iter().map(to_real).collect(), *w),
        ),
    }
}
pub fn nodes_to_real(r: &[N]) -> Vec<InputNode> {
    r.iter().map(node_to_real).collect()
}
pub fn from_real(r: &InputRow) -> Row {
    r.values.iter().map(node_from_real).collect()
}
pub fn nodes_from_real(r: &[InputNode]) -> Row {
    r.iter().map(node_from_real).collect()
}
pub fn node_from_real(n: &InputNode) -> N {
    match n {
        InputNode::Symbol(s) => N::S(s.clone()),
        InputNode::Container(v, g) => {
            let cells: Vec<Row> = g.values().map(from_real).collect();
            // width() is a plain accessor; an inconsistent width shows up as a difference to the model
            let w = g.width();
            N::C(
                match v {
                    InputNodeVariant::Fraction => V::Frac,
                    InputNodeVariant::Root => V::Root,
                    InputNodeVariant::Sup => V::Sup,
                    InputNodeVariant::Sub => V::Sub,
                    InputNodeVariant::Table => V::Table,
                },
                w,
                cells,
            )
        }
    }
}
/// Heights are derived by the real code; they must agree with the number of cells.
pub fn grids_consistent(r: &InputRow) -> bool {
    r.values.iter().all(|n| match n {
        InputNode::Symbol(_) => true,
        InputNode::Container(_, g) => {
            let n = g.values().count();
            g.width() > 0 && g.width() * g.height() == n && g.size() == (g.width(), g.height()) && g.values().all(grids_consistent)
        }
    })
}

pub fn path_to_real(p: &[(usize, usize)]) -> RowIndices {
    RowIndices::new(p.iter().map(|(a, b)| RowIndex(*a, *b)).collect())
}
pub fn path_from_real(p: &RowIndices) -> Path {
    p.iter().map(|i| (i.0, i.1)).collect()
}
pub fn pos_to_real(p: &Pos) -> MinimalInputRowPosition {
    MinimalInputRowPosition { row_indices: path_to_real(&p.path), offset: Offset(p.off) }
}
pub fn pos_from_real(p: &MinimalInputRowPosition) -> Pos {
    Pos { path: path_from_real(&p.row_indices), off: p.offset.0 }
}
/// (row, start, end)
pub type Rng = (Path, usize, usize);
pub fn rng_to_real(r: &Rng) -> MinimalInputRowRange {
    MinimalInputRowRange { row_indices: path_to_real(&r.0), start: Offset(r.1), end: Offset(r.2) }
}
pub fn rng_from_real(r: &MinimalInputRowRange) -> Rng {
    (path_from_real(&r.row_indices), r.start.0, r.end.0)
}

pub fn edit_to_real(e: &Edit) -> input_tree::editing::BasicEdit {
    use input_tree::editing::*;
    use input_tree::grid::GridDirection;
    use input_tree::row::ElementIndices;
    match e {
        Edit::Ins { path, at, nodes } | Edit::Del { path, at, nodes } => BasicEdit::Row(RowEdit {
            edit_type: if matches!(e, Edit::Ins { .. }) { EditType::Insert } else { EditType::Delete },
            position: pos_to_real(&pos(path, *at)),
            values: nodes_to_real(nodes),
        }),
        Edit::GIns { path, index, rows, at, count, cells } | Edit::GDel { path, index, rows, at, count, cells } => {
            let width = if *rows { cells.len() / count } else { *count };
            BasicEdit::Grid(GridEdit {
                edit_type: if matches!(e, Edit::GIns { .. }) { EditType::Insert } else { EditType::Delete },
                element_indices: ElementIndices { row_indices: path_to_real(path), index: *index },
                direction: if *rows { GridDirection::Row } else { GridDirection::Column },
                row_or_column: Offset(*at),
                values: GridVec::from_one_dimensional(cells.iter().map(to_real).collect(), width),
            })
        }
    }
}
