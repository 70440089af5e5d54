use crate::trees;
use input_tree::direction::HorizontalDirection;
use input_tree::focus::*;
use input_tree::grid::{Grid, GridRectangle, Index2D};
use input_tree::input_tree::InputTree;
use input_tree::node::InputNode;
use input_tree::row::{InputRow, Offset, RowIndices};
use std::cmp::Ordering;
use vcommon::*;

fn real_pos<'a>(t: &'a InputTree, p: &Pos) -> InputRowPosition<'a> {
    InputRowPosition::from_minimal(t.root_focus(), &pos_to_real(p))
}

/// One of the offsets that are explored in long rows.
fn far(tree: &Row, p: &Pos) -> bool {
    offsets(row_at(tree, &p.path).unwrap().len()).contains(&p.off)
}

pub fn c07(ctx: &Ctx) {
    let cases = union(vec![huge(), trees(ctx, (3, 4), (4, 5), true), all_trees(ctx.pick(5, 7), SMALL_KINDS)]);
    ctx.run("every pair of positions", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        let t = InputTree::new(to_real(tree));
        let ps = positions(tree);
        let r: Result<Result<u64, String>, PanicInfo> = guard(|| {
            let real: Vec<InputRowPosition> = ps.iter().map(|p| real_pos(&t, p)).collect();
            let mut n = 0;
            for (i, a) in real.iter().enumerate() {
                for (j, b) in real.iter().enumerate() {
                    n += 1;
                    let want = i.cmp(&j);
                    let ok = a.cmp(b) == want
                        && a.partial_cmp(b) == Some(want)
                        && (a == b) == (i == j)
                        && (a < b) == (want == Ordering::Less)
                        && (a <= b) == (want != Ordering::Greater)
                        && (a > b) == (want == Ordering::Greater)
                        && (a >= b) == (want != Ordering::Less)
                        && RowIndices::cmp_indices_and_offset(a.row_indices(), &a.offset, b.row_indices(), &b.offset) == want;
                    if !ok {
                        return Err(format!("{:?} vs {:?}: reading order says {:?}, comparison says {:?} (equal: {})", ps[i], ps[j], want, a.cmp(b), a == b));
                    }
                }
            }
            Ok(n)
        });
        match r {
            Err(p) => l.fail("order", format!("{p}")),
            Ok(Err(m)) => l.fail("order", m),
            Ok(Ok(n)) => l.transitions += n,
        }
    });
    let cases = union(vec![huge(), trees(ctx, (3, 4), (4, 5), true), all_trees(ctx.pick(4, 6), SMALL_KINDS)]);
    ctx.run("every position against every range", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        let t = InputTree::new(to_real(tree));
        let ps = positions(tree);
        let r: Result<Result<u64, String>, PanicInfo> = guard(|| {
            let real: Vec<InputRowPosition> = ps.iter().map(|p| real_pos(&t, p)).collect();
            let mut n = 0;
            for (i, a) in ps.iter().enumerate() {
                for (j, b) in ps.iter().enumerate() {
                    if a.path != b.path || (tree.len() > 60 && !(far(tree, a) && far(tree, b))) {
                        continue;
                    }
                    let range = InputRowRange::from_minimal(t.root_focus(), &rng_to_real(&(a.path.clone(), a.off, b.off)));
                    if range.is_forwards() != (i <= j) || range.is_collapsed() != (i == j) || range.is_empty() != (i == j) || range.len() != a.off.abs_diff(b.off) {
                        return Err(format!("range {a:?}..{b:?}: direction/emptiness/length wrong"));
                    }
                    let (lo, hi) = (i.min(j), i.max(j));
                    if range.left_position() != real[lo] || range.right_position() != real[hi] || range.start_position() != real[i] || range.end_position() != real[j] {
                        return Err(format!("range {a:?}..{b:?}: ends wrong"));
                    }
                    if nodes_from_real(range.values()) != row_at(tree, &a.path).unwrap()[ps[lo].off..ps[hi].off] {
                        return Err(format!("range {a:?}..{b:?}: covered nodes wrong"));
                    }
                    let mini = range.to_minimal();
                    if rng_from_real(&mini) != (a.path.clone(), a.off, b.off) || InputRowRange::from_minimal(t.root_focus(), &mini) != range {
                        return Err(format!("range {a:?}..{b:?}: address round trip wrong"));
                    }
                    for (k, p) in real.iter().enumerate() {
                        n += 1;
                        let want = lo <= k && k <= hi;
                        if range.contains(p) != want || p.in_range(range.clone()) != want {
                            return Err(format!("position {:?} inside range {a:?}..{b:?}: should be {want}", ps[k]));
                        }
                    }
                }
                let c: InputRowRange = (&real[i]).into();
                if rng_from_real(&c.to_minimal()) != (a.path.clone(), a.off, a.off) {
                    return Err(format!("empty range at {a:?} wrong"));
                }
            }
            Ok(n)
        });
        match r {
            Err(p) => l.fail("in-range", format!("{p}")),
            Ok(Err(m)) => l.fail("in-range", m),
            Ok(Ok(n)) => l.transitions += n,
        }
    });
}

pub fn c08(ctx: &Ctx) {
    let cases = union(vec![huge(), trees(ctx, (3, 4), (4, 5), true), all_trees(ctx.pick(5, 7), SMALL_KINDS)]);
    ctx.run("every ordered pair of positions", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        let t = InputTree::new(to_real(tree));
        let ps = positions(tree);
        let rs = rows(tree);
        for (i, a) in ps.iter().enumerate() {
            for (j, b) in ps.iter().enumerate() {
                l.transitions += 1;
                let (path, lo, hi) = minimal_cover(tree, &rs, a, b);
                let want = if i <= j { (path, lo, hi) } else { (path, hi, lo) };
                match guard(|| rng_from_real(&t.range_from_positions(&real_pos(&t, a), &real_pos(&t, b)).to_minimal())) {
                    Err(p) => return l.fail("span", format!("{a:?}, {b:?}: {p}")),
                    Ok(g) => {
                        if g != want {
                            return l.fail("span", format!("range spanning {a:?} and {b:?} is {g:?} but should be {want:?}"));
                        }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------ navigation

#[derive(Clone, Debug)]
enum Op {
    RowChild(usize),
    RowAt(usize, usize),
    NodeChild(usize),
    Parent,
}
#[derive(Clone)]
enum At<'a> {
    Row(InputFocusRow<'a>),
    Node(InputFocusNode<'a>),
}
#[derive(Clone, PartialEq, Debug)]
enum Addr {
    Row(Path),
    Node(Path, usize),
}
fn find_row<'a>(root: &'a InputRow, p: &[(usize, usize)]) -> &'a InputRow {
    let mut r = root;
    for (i, c) in p {
        let InputNode::Container(_, g) = &r.values[*i] else { panic!() };
        r = g.values().nth(*c).unwrap();
    }
    r
}

fn model_step(tree: &Row, at: &Addr, op: &Op) -> Option<Addr> {
    match (at, op) {
        (Addr::Row(p), Op::RowChild(i)) => (*i < row_at(tree, p)?.len()).then(|| Addr::Node(p.clone(), *i)),
        (Addr::Row(p), Op::RowAt(i, c)) => {
            row_at(tree, p)?.get(*i)?.cells().get(*c)?;
            let mut q = p.clone();
            q.push((*i, *c));
            Some(Addr::Row(q))
        }
        (Addr::Row(p), Op::Parent) => {
            let ((i, _), up) = p.split_last()?;
            Some(Addr::Node(up.to_vec(), *i))
        }
        (Addr::Node(p, i), Op::NodeChild(c)) => {
            row_at(tree, p)?.get(*i)?.cells().get(*c)?;
            let mut q = p.clone();
            q.push((*i, *c));
            Some(Addr::Row(q))
        }
        (Addr::Node(p, _), Op::Parent) => Some(Addr::Row(p.clone())),
        _ => None,
    }
}
fn ops(tree: &Row, at: &Addr) -> Vec<Op> {
    let mut o = vec![Op::Parent];
    match at {
        Addr::Row(p) => {
            let n = row_at(tree, p).unwrap().len();
            for i in (0..=n + 1).chain([usize::MAX]) {
                o.push(Op::RowChild(i));
                let cells = row_at(tree, p).unwrap().get(i).map(|n| n.cells().len()).unwrap_or(0);
                for c in (0..=cells + 1).chain([usize::MAX]) {
                    o.push(Op::RowAt(i, c));
                }
            }
        }
        Addr::Node(p, i) => {
            let cells = row_at(tree, p).unwrap()[*i].cells().len();
            for c in (0..=cells + 2).chain([usize::MAX]) {
                o.push(Op::NodeChild(c));
            }
        }
    }
    o
}
/// The focus must denote exactly the address.
fn consistent(root: &InputRow, tree: &Row, at: &At, addr: &Addr) -> Result<(), String> {
    match (at, addr) {
        (At::Row(f), Addr::Row(p)) => {
            if &path_from_real(f.row_indices()) != p {
                return Err(format!("row at {p:?} reports address {:?}", f.row_indices()));
            }
            if !std::ptr::eq(f.row(), find_row(root, p)) {
                return Err(format!("focus at {p:?} points at another row"));
            }
            let n = row_at(tree, p).unwrap().len();
            if f.len() != n || f.is_empty() != (n == 0) {
                return Err(format!("row at {p:?} reports length {}", f.len()));
            }
            if f.index_in_parent() != p.last().map(|x| x.1) {
                return Err(format!("row at {p:?} reports index in parent {:?}", f.index_in_parent()));
            }
            for i in 0..=n + 1 {
                let want = f.row().values.get(i);
                let got = f.node_at(i);
                if want.map(|x| x as *const InputNode) != got.map(|x| x as *const InputNode) {
                    return Err(format!("node {i} of row {p:?} is wrong"));
                }
                let left = f.offset_to_index(Offset(i), HorizontalDirection::Left);
                let right = f.offset_to_index(Offset(i), HorizontalDirection::Right);
                if i <= n && (left != i.checked_sub(1) || right != (if i < n { Some(i) } else { None })) {
                    return Err(format!("neighbours of offset {i} in row {p:?}: {left:?}, {right:?}"));
                }
            }
            if f != &InputFocusRow::from_root(root).walk_down_indices(&path_to_real(p)) {
                return Err(format!("focus at {p:?} differs from walking down to it"));
            }
            Ok(())
        }
        (At::Node(f), Addr::Node(p, i)) => {
            let e = f.element_indices();
            if &path_from_real(&e.row_indices) != p || e.index != *i || f.index_in_parent() != *i {
                return Err(format!("node {i} of {p:?} reports address {e:?} index {}", f.index_in_parent()));
            }
            if !std::ptr::eq(f.node(), &find_row(root, p).values[*i]) {
                return Err(format!("focus at node {i} of {p:?} points at another node"));
            }
            Ok(())
        }
        _ => Err("row/node mixed up".into()),
    }
}
fn step<'a>(at: At<'a>, op: &Op) -> Result<At<'a>, At<'a>> {
    match (at, op) {
        (At::Row(f), Op::RowChild(i)) => f.clone().child_at(*i).map(At::Node).ok_or(At::Row(f)),
        (At::Row(f), Op::RowAt(i, c)) => f.clone().row_at((*i, *c)).map(At::Row).ok_or(At::Row(f)),
        (At::Row(f), Op::Parent) => f.clone().parent().map(At::Node).ok_or(At::Row(f)),
        (At::Node(f), Op::NodeChild(c)) => f.child_at(*c).map(At::Row).map_err(At::Node),
        (At::Node(f), Op::Parent) => Ok(At::Row(f.parent())),
        (a, _) => Err(a),
    }
}
fn walk<'a>(l: &mut Local, root: &'a InputRow, tree: &Row, at: &At<'a>, addr: &Addr, left: usize, trace: &mut Vec<Op>) {
    if left == 0 || l.failed() {
        l.traces += 1;
        return;
    }
    for op in ops(tree, addr) {
        l.transitions += 1;
        let want = model_step(tree, addr, &op);
        trace.push(op.clone());
        let r = guard(|| {
            let got = step(at.clone(), &op);
            match (&got, &want) {
                (Ok(a), Some(w)) => consistent(root, tree, a, w)?,
                // a refused step leaves the focus where it was
                (Err(a), None) => consistent(root, tree, a, addr)?,
                (Ok(_), None) => return Err("reached something that does not exist".into()),
                (Err(_), Some(w)) => return Err(format!("could not reach {w:?}")),
            }
            Ok(got)
        });
        match r {
            Err(p) => return l.fail("navigation", format!("steps {trace:?}: {p}")),
            Ok(Err(m)) => return l.fail("navigation", format!("steps {trace:?}: {m}")),
            Ok(Ok(got)) => {
                if let (Ok(a), Some(w)) = (got, want) {
                    walk(l, root, tree, &a, &w, left - 1, trace);
                }
            }
        }
        trace.pop();
    }
}

pub fn c09(ctx: &Ctx) {
    // from every row and node, a few steps
    let plans = [
        ("every single step from every focus", union(vec![huge(), trees(ctx, (3, 4), (4, 5), true)]), 1),
        ("every two steps from every focus", union(vec![trees(ctx, (3, 4), (4, 5), true)]), 2),
        ("every walk", union(vec![all_trees(ctx.pick(2, 3), ALL_KINDS), all_trees(ctx.pick(3, 4), SMALL_KINDS), families(3, ctx.pick(3, 4), 2)]), ctx.pick(4, 5)),
    ];
    for (k, (name, cases, d)) in plans.iter().enumerate() {
        ctx.run(name, cases, row_json, || (), |_, tree, l| {
            l.states += 1;
            let t = InputTree::new(to_real(tree));
            let mut starts = vec![Addr::Row(vec![])];
            if k < 2 {
                starts.extend(rows(tree).into_iter().skip(1).map(Addr::Row));
                starts.extend(nodes(tree).into_iter().map(|(p, i)| Addr::Node(p, i)));
            }
            for s in starts {
                let at = guard(|| match &s {
                    Addr::Row(p) => At::Row(t.root_focus().walk_down_indices(&path_to_real(p))),
                    Addr::Node(p, i) => At::Node(t.root_focus().walk_down_indices(&path_to_real(p)).child_at(*i).unwrap()),
                });
                match at {
                    Err(p) => return l.fail("navigation", format!("walking down to {s:?}: {p}")),
                    Ok(at) => {
                        match guard(|| consistent(&t.root, tree, &at, &s)) {
                            Err(p) => return l.fail("navigation", format!("at {s:?}: {p}")),
                            Ok(Err(m)) => return l.fail("navigation", format!("at {s:?}: {m}")),
                            _ => {}
                        }
                        walk(l, &t.root, tree, &at, &s, *d, &mut vec![]);
                    }
                }
            }
        });
    }
    // foci are equal exactly when their addresses are; addresses survive a round trip; deep up-and-down
    let cases = union(vec![huge(), trees(ctx, (3, 4), (4, 5), true)]);
    ctx.run("identity and address round trips", &cases, row_json, || (), |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        let t = InputTree::new(to_real(tree));
        let r: Result<Result<u64, String>, PanicInfo> = guard(|| {
            let mut n = 0;
            let rs = rows(tree);
            let ns = nodes(tree);
            let fr: Vec<InputFocusRow> = rs.iter().map(|p| t.root_focus().walk_down_indices(&path_to_real(p))).collect();
            let fnn: Vec<InputFocusNode> = ns.iter().map(|(p, i)| t.root_focus().walk_down_indices(&path_to_real(p)).child_at(*i).unwrap()).collect();
            for (i, a) in fr.iter().enumerate() {
                for (j, b) in fr.iter().enumerate() {
                    n += 1;
                    if (a == b) != (i == j) {
                        return Err(format!("rows {:?} and {:?} equal: {}", rs[i], rs[j], a == b));
                    }
                }
                // all the way up and down again
                let mut up = a.clone();
                let mut len = rs[i].len();
                while let Some(p) = up.clone().parent() {
                    len -= 1;
                    let want = Addr::Node(rs[i][..len].to_vec(), rs[i][len].0);
                    consistent(&t.root, tree, &At::Node(p.clone()), &want)?;
                    up = p.parent();
                    consistent(&t.root, tree, &At::Row(up.clone()), &Addr::Row(rs[i][..len].to_vec()))?;
                    let down = up.clone().walk_down_indices(&path_to_real(&rs[i][len..]));
                    consistent(&t.root, tree, &At::Row(down), &Addr::Row(rs[i].clone()))?;
                }
                if len != 0 {
                    return Err(format!("parents of {:?} end too early", rs[i]));
                }
                for off in 0..=a.len() {
                    let p = InputRowPosition::new(a.clone(), Offset(off));
                    let m = p.to_minimal();
                    if pos_from_real(&m) != pos(&rs[i], off) || InputRowPosition::from_minimal(t.root_focus(), &m) != p {
                        return Err(format!("position {off} in {:?}: address round trip", rs[i]));
                    }
                }
            }
            for (i, a) in fnn.iter().enumerate() {
                for (j, b) in fnn.iter().enumerate() {
                    n += 1;
                    if (a == b) != (i == j) {
                        return Err(format!("nodes {:?} and {:?} equal: {}", ns[i], ns[j], a == b));
                    }
                }
                if let InputNode::Container(_, g) = a.node() {
                    let cells = g.values().count();
                    for c in 0..cells {
                        for d in 0..cells {
                            let rect = GridRectangle::from_indices_inclusive(Index2D::from_index(c, g), Index2D::from_index(d, g), g);
                            let r = InputGridRange::new(a.clone(), rect);
                            let m = r.to_minimal();
                            let back = InputGridRange::from_minimal(t.root_focus(), &m);
                            if path_from_real(&m.row_indices) != ns[i].0 || m.index != ns[i].1 || m.range != rect || back != r || back.to_minimal() != m {
                                return Err(format!("grid range {c}..{d} in {:?}: address round trip", ns[i]));
                            }
                        }
                    }
                    let r = InputGridRange::new(a.clone(), GridRectangle::from_indices_inclusive(Index2D::from_index(0, g), Index2D::from_index(0, g), g));
                    for k in (0..cells + 2).chain([usize::MAX]) {
                        n += 1;
                        let want = g.values().nth(k.min(cells));
                        if r.get_row(k).map(|x| x as *const InputRow) != want.map(|x| x as *const InputRow) {
                            return Err(format!("cell {k} of the grid {:?}", ns[i]));
                        }
                    }
                    if r.grid().size() != g.size() {
                        return Err("grid of a grid range".into());
                    }
                }
            }
            Ok(n)
        });
        match r {
            Err(p) => l.fail("navigation", format!("{p}")),
            Ok(Err(m)) => l.fail("navigation", m),
            Ok(Ok(n)) => l.transitions += n,
        }
    });
}
