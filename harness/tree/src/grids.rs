use input_tree::grid::*;
use input_tree::input_tree::InputTree;
use input_tree::focus::InputGridRange;
use serde_json::json;
use std::collections::BTreeSet;
use vcommon::*;

fn grid(w: usize, h: usize) -> GridVec<usize> {
    GridVec::from_one_dimensional((0..w * h).map(|i| 1000 + i).collect(), w)
}
fn outcome(l: &mut Local, key: &str, r: Result<Result<u64, String>, PanicInfo>) {
    match r {
        Err(p) => l.fail(key, format!("{p}")),
        Ok(Err(m)) => l.fail(key, m),
        Ok(Ok(n)) => l.transitions += n,
    }
}

pub fn c10(ctx: &Ctx) {
    let max = ctx.pick(9, 12);
    let mut sizes: Vec<(usize, usize)> = (1..=max).flat_map(|w| (0..=max).map(move |h| (w, h))).collect();
    sizes.extend([(1, 30), (30, 1), (2, 17), (17, 2), (16, 17), (300, 1), (1, 300)]);
    ctx.run("every cell, step and coordinate of every grid", &sizes, |c| json!(c), || (), |_, &(w, h), l| {
        l.states += 1;
        l.traces += 1;
        let r = guard(|| {
            let g = grid(w, h);
            let mut n = 0u64;
            if g.size() != (w, h) || g.width() != w || g.height() != h || g.is_empty() != (w * h == 0) {
                return Err(format!("size reported as {:?}", g.size()));
            }
            if g.values().copied().collect::<Vec<_>>() != (0..w * h).map(|i| 1000 + i).collect::<Vec<_>>() || g.clone().into_iter().count() != w * h {
                return Err("values are not the cells in order".into());
            }
            // linear index <-> coordinates
            let mut seen = BTreeSet::new();
            for i in (0..w * h + 2 * w + 2).chain([usize::MAX, usize::MAX - 1, usize::MAX / 2]) {
                n += 1;
                let xy = Index2D::from_index(i, &g);
                let inside = i < w * h;
                if inside {
                    if xy.x >= w || xy.y >= h || !seen.insert((xy.x, xy.y)) || xy.x + w * xy.y != i {
                        return Err(format!("index {i} became ({}, {})", xy.x, xy.y));
                    }
                    if xy.to_index() != i || xy.to_index_checked(&g) != Some(i) || g.get(xy) != Some(&(1000 + i)) || <(usize, usize)>::from(xy) != (i % w, i / w) {
                        return Err(format!("index {i} does not survive the round trip"));
                    }
                } else if xy.to_index_checked(&g).is_some() || g.get(xy).is_some() {
                    return Err(format!("index {i} is outside but found"));
                }
            }
            // coordinates, inside and outside, for grids of this and other widths
            let far = [usize::MAX, usize::MAX / 2 + 1];
            for x in (0..w + 3).chain(far) {
                for y in (0..h + 3).chain(far) {
                    for iw in 1..w + 3 {
                        n += 1;
                        let xy = Index2D::new(x, y, iw);
                        let inside = x < w && y < h && iw == w;
                        let want = if inside { Some(y * w + x) } else { None };
                        if xy.to_index_checked(&g) != want {
                            return Err(format!("({x},{y}) made for width {iw}: index {:?}", xy.to_index_checked(&g)));
                        }
                        if g.get(xy).copied() != want.map(|i| 1000 + i) {
                            return Err(format!("({x},{y}) made for width {iw}: cell {:?}", g.get(xy)));
                        }
                        // writing
                        let mut g2 = g.clone();
                        let old = g2.set(xy, 7);
                        let cells: Vec<usize> = (0..w * h).map(|i| if Some(i) == want { 7 } else { 1000 + i }).collect();
                        if old != want.map(|i| 1000 + i) || g2.values().copied().collect::<Vec<_>>() != cells || g2.size() != (w, h) {
                            return Err(format!("writing ({x},{y}) made for width {iw}: {:?}", g2.values().collect::<Vec<_>>()));
                        }
                        let mut g3 = g.clone();
                        match g3.get_mut(xy) {
                            None if want.is_none() => {}
                            Some(c) if want.is_some() => {
                                *c = 7;
                                if g3 != g2 {
                                    return Err(format!("mutating ({x},{y})"));
                                }
                            }
                            _ => return Err(format!("mutable access to ({x},{y}) made for width {iw}")),
                        }
                        if !inside {
                            continue;
                        }
                        // steps
                        for dx in (0..w + 2).chain([usize::MAX]) {
                            for dy in (0..h + 2).chain([usize::MAX]) {
                                n += 2;
                                let plus = xy.add_checked((dx, dy), &g).map(|p| (p.x, p.y, p.to_index()));
                                let want = match (x.checked_add(dx), y.checked_add(dy)) {
                                    (Some(a), Some(b)) if a < w && b < h => Some((a, b, b * w + a)),
                                    _ => None,
                                };
                                if plus != want {
                                    return Err(format!("({x},{y}) + ({dx},{dy}) = {plus:?}"));
                                }
                                let minus = xy.sub_checked((dx, dy), &g).map(|p| (p.x, p.y, p.to_index()));
                                let want = match (x.checked_sub(dx), y.checked_sub(dy)) {
                                    (Some(a), Some(b)) => Some((a, b, b * w + a)),
                                    _ => None,
                                };
                                if minus != want {
                                    return Err(format!("({x},{y}) - ({dx},{dy}) = {minus:?}"));
                                }
                            }
                        }
                    }
                }
            }
            Ok(n)
        });
        outcome(l, "grid", r);
    });
    // steps judged against another grid than the one the coordinate was made for
    let pairs: Vec<((usize, usize), (usize, usize))> = {
        let m = ctx.pick(4, 6);
        let s: Vec<(usize, usize)> = (1..=m).flat_map(|w| (0..=m).map(move |h| (w, h))).collect();
        s.iter().flat_map(|a| s.iter().map(move |b| (*a, *b))).collect()
    };
    ctx.run("coordinates of one grid used in another", &pairs, |c| json!(c), || (), |_, &((w, h), (w2, h2)), l| {
        l.states += 1;
        l.traces += 1;
        let r = guard(|| {
            let (a, b) = (grid(w, h), grid(w2, h2));
            let mut n = 0;
            for i in 0..w * h {
                let xy = Index2D::from_index(i, &a);
                let inside = w == w2 && xy.y < h2;
                n += 1;
                if xy.to_index_checked(&b).is_some() != inside || b.get(xy).is_some() != inside {
                    return Err(format!("cell {i} of {w}x{h} in {w2}x{h2}"));
                }
                for d in [(0, 0), (1, 0), (0, 1), (1, 1)] {
                    n += 2;
                    let plus = w == w2 && xy.x + d.0 < w2 && xy.y + d.1 < h2;
                    if xy.add_checked(d, &b).is_some() != plus {
                        return Err(format!("cell {i} of {w}x{h} + {d:?} in {w2}x{h2}"));
                    }
                    let minus = w == w2 && xy.x >= d.0 && xy.y >= d.1 && xy.y - d.1 < h2;
                    if xy.sub_checked(d, &b).is_some() != minus {
                        return Err(format!("cell {i} of {w}x{h} - {d:?} in {w2}x{h2}"));
                    }
                }
            }
            Ok(n)
        });
        outcome(l, "grid", r);
    });
    // malformed grids are refused
    let shapes: Vec<(usize, usize)> = (0..=max).flat_map(|w| (0..=2 * max).map(move |n| (n, w))).collect();
    ctx.run("every cell count and width", &shapes, |c| json!(c), || (), |_, &(n, w), l| {
        l.states += 1;
        l.transitions += 1;
        l.traces += 1;
        let ok = w > 0 && n % w == 0;
        let r = guard(|| GridVec::from_one_dimensional(vec![0u8; n], w).size());
        match (ok, r) {
            (true, Ok(s)) if s == (w, n / w) => {}
            (false, Err(_)) => {}
            (_, r) => l.fail("grid", format!("{n} cells of width {w}: {:?}", r.map_err(|p| p.msg))),
        }
    });
}

fn rect_cells(w: usize, a: usize, b: usize) -> (usize, usize, usize, usize) {
    let (ax, ay, bx, by) = (a % w, a / w, b % w, b / w);
    (ax.min(bx), ay.min(by), ax.max(bx), ay.max(by))
}

pub fn c11(ctx: &Ctx) {
    let max = ctx.pick(7, 9);
    let mut sizes: Vec<(usize, usize)> = (1..=max).flat_map(|w| (1..=max).map(move |h| (w, h))).collect();
    sizes.extend([(1, 30), (30, 1), (2, 13), (13, 2), (12, 11)]);
    ctx.run("every pair of cells of every grid", &sizes, |c| json!(c), || (), |_, &(w, h), l| {
        l.states += 1;
        l.traces += 1;
        let r = guard(|| {
            let g = grid(w, h);
            let mut n = 0u64;
            for a in 0..w * h {
                for b in 0..w * h {
                    n += 1;
                    let rect = GridRectangle::from_indices_inclusive(Index2D::from_index(a, &g), Index2D::from_index(b, &g), &g);
                    let (x0, y0, x1, y1) = rect_cells(w, a, b);
                    check_rect(&g, w, h, rect, x0, y0, x1, y1).map_err(|m| format!("cells {a} and {b} of {w}x{h}: {m}"))?;
                    n += ((w + 2) * (h + 2)) as u64;
                    // the same rectangle written as a half-open range of linear indices
                    if a % w <= b % w && a / w <= b / w {
                        let rect2 = GridRectangle::new(a..b + 1, w);
                        check_rect(&g, w, h, rect2, x0, y0, x1, y1).map_err(|m| format!("linear range {a}..{} of {w}x{h}: {m}", b + 1))?;
                        if rect2 != rect {
                            return Err(format!("cells {a} and {b} of {w}x{h}: two equal rectangles differ"));
                        }
                    }
                }
                // empty rectangles
                let e = GridRectangle::new(a..a, w);
                if !e.is_empty() || e.end_index_inclusive().is_some() || !g.get_view(e).is_empty() || e.width() * e.height() != 0 {
                    return Err(format!("empty rectangle at {a} of {w}x{h} is not empty: {e:?} size {:?}", e.size()));
                }
                let v = g.get_view(e);
                for x in 0..w {
                    for y in 0..h {
                        for iw in 0..=w {
                            if v.get(Index2D::new(x, y, iw)).is_some() {
                                return Err(format!("a view through an empty rectangle shows ({x},{y})"));
                            }
                        }
                    }
                }
            }
            Ok(n)
        });
        outcome(l, "rectangle", r);
    });
    // as a selection in a formula
    let m = ctx.pick(4, 5);
    let mut sizes: Vec<(usize, usize)> = (1..=m).flat_map(|w| (1..=m).map(move |h| (w, h))).collect();
    sizes.extend([(1, 12), (12, 1), (11, 3), (3, 11)]);
    ctx.run("every table selection", &sizes, |c| json!(c), || (), |_, &(w, h), l| {
        l.states += 1;
        l.traces += 1;
        let table = N::C(V::Table, w, (0..w * h).map(|_| vec![sym("x")]).collect());
        let tree = relabel(&vec![N::C(V::Frac, 1, vec![vec![sym("x")], vec![sym("x"), table]])]);
        let r = guard(|| {
            let t = InputTree::new(to_real(&tree));
            let mut n = 0;
            for a in 0..w * h {
                for b in 0..w * h {
                    n += 1;
                    let focus = t.root_focus().walk_down_indices(&path_to_real(&[(0, 1)])).child_at(1).unwrap();
                    let g = focus.node().grid().unwrap();
                    let rect = GridRectangle::from_indices_inclusive(Index2D::from_index(a, g), Index2D::from_index(b, g), g);
                    let sel = InputGridRange::new(focus, rect);
                    let (x0, y0, x1, y1) = rect_cells(w, a, b);
                    if sel.top_left_index() != (x0, y0) || sel.bottom_right_index() != Some((x1, y1)) || sel.is_collapsed() {
                        return Err(format!("selection of cells {a} and {b} of {w}x{h}: corners {:?} {:?}", sel.top_left_index(), sel.bottom_right_index()));
                    }
                    let m = sel.to_minimal();
                    let back = InputGridRange::from_minimal(t.root_focus(), &m);
                    if back != sel {
                        return Err("selection changes on a round trip".into());
                    }
                    if let Some(i) = (0..w * h + w + 2).find(|i| sel.get_row(*i).map(from_real).as_ref() != tree[0].cells()[1][1].cells().get(*i)) {
                        return Err(format!("cell {i} of {w}x{h}, asked through a selection, is {:?}", sel.get_row(i)));
                    }
                    let v = sel.grid().get_view(sel.range);
                    let cells: Vec<Row> = (0..v.height())
                        .flat_map(|y| (0..v.width()).map(move |x| (x, y)))
                        .map(|(x, y)| v.get(Index2D::new(x, y, v.width())).map(from_real).unwrap_or(vec![sym("missing")]))
                        .collect();
                    let tc = tree[0].cells()[1][1].cells();
                    let want: Vec<Row> = (y0..=y1).flat_map(|y| (x0..=x1).map(move |x| (x, y))).map(|(x, y)| tc[y * w + x].clone()).collect();
                    if cells != want {
                        return Err(format!("selection of cells {a} and {b} of {w}x{h} shows {cells:?}"));
                    }
                }
            }
            Ok(n)
        });
        outcome(l, "rectangle", r);
    });
}

#[allow(clippy::too_many_arguments)]
fn check_rect(g: &GridVec<usize>, w: usize, h: usize, rect: GridRectangle, x0: usize, y0: usize, x1: usize, y1: usize) -> Result<(), String> {
    let (rw, rh) = (x1 - x0 + 1, y1 - y0 + 1);
    if rect.is_empty() {
        return Err("reported empty".into());
    }
    if <(usize, usize)>::from(rect.start_index()) != (x0, y0) || rect.end_index_inclusive().map(<(usize, usize)>::from) != Some((x1, y1)) {
        return Err(format!("corners {:?} {:?}, should be ({x0},{y0}) ({x1},{y1})", rect.start_index(), rect.end_index_inclusive()));
    }
    // the corners are coordinates of the grid
    let (a, b) = (rect.start_index().to_index_checked(g), rect.end_index_inclusive().unwrap().to_index_checked(g));
    if a != Some(y0 * w + x0) || b != Some(y1 * w + x1) {
        return Err(format!("corners are cells {a:?} {b:?} of the grid"));
    }
    if rect.size() != (rw, rh) || rect.width() != rw || rect.height() != rh {
        return Err(format!("size {:?}, should be ({rw}, {rh})", rect.size()));
    }
    let v = g.get_view(rect);
    if v.size() != (rw, rh) || v.is_empty() {
        return Err(format!("view size {:?}", v.size()));
    }
    for x in 0..w + 2 {
        for y in 0..h + 2 {
            let got = v.get(Index2D::new(x, y, rw)).copied();
            let want = (x < rw && y < rh).then(|| 1000 + (y0 + y) * w + x0 + x);
            if got != want {
                return Err(format!("view cell ({x},{y}) is {got:?}, should be {want:?}"));
            }
        }
    }
    for i in 0..rw * rh {
        if v.get(Index2D::from_index(i, &v)).copied() != Some(1000 + (y0 + i / rw) * w + x0 + i % rw) {
            return Err(format!("view cell number {i}"));
        }
    }
    Ok(())
}
