//! The parts of the caret crate that the editor itself does not call (yet): a caret whose ends are set one by one (C16)
//! and the bare undo history (C19).  Where such a part should not exist, there is nothing to judge: the traits below stand
//! in for the methods, and an inherent method always goes first.
use crate::ed::*;
use crate::editor::{p_init, selection};
use caret::caret::{Caret, CaretSelection, MinimalCaret, MinimalCaretSelection};
use caret::undo_redo_manager::UndoRedoManager;
use input_tree::editing::invertible::Invertible;
use input_tree::focus::{InputRowPosition, InputRowRange};
use input_tree::input_tree::InputTree;
use input_tree::row::InputRow;
use vcommon::*;

/// What a stand-in answers.
struct Absent;
trait Answer<T> {
    fn answer(self) -> Option<T>;
}
impl<T> Answer<T> for T {
    fn answer(self) -> Option<T> {
        Some(self)
    }
}
impl Answer<bool> for Absent {
    fn answer(self) -> Option<bool> {
        None
    }
}
impl Answer<()> for Absent {
    fn answer(self) -> Option<()> {
        None
    }
}
#[allow(dead_code)]
trait CaretAbsent<'a>: Sized {
    fn set_start_position(&mut self, _: InputRowPosition<'a>) -> Absent {
        Absent
    }
    fn set_end_position(&mut self, _: InputRowPosition<'a>) -> Absent {
        Absent
    }
    fn set_selection(&mut self, _: InputRowRange<'a>) -> Absent {
        Absent
    }
}
impl<'a> CaretAbsent<'a> for Caret<'a> {}
#[allow(dead_code)]
trait UndoAbsent: Sized {
    fn can_undo(&self) -> Absent {
        Absent
    }
    fn can_redo(&self) -> Absent {
        Absent
    }
}
impl<T: Invertible + Clone> UndoAbsent for UndoRedoManager<T> {}

fn seen(s: &CaretSelection) -> Sel {
    match s.to_minimal() {
        MinimalCaretSelection::Row(r) => {
            let (p, a, b) = rng_from_real(&r);
            Sel::Row(p, a, b)
        }
        MinimalCaretSelection::Grid(g) => {
            let s: (usize, usize) = g.range.start_index().into();
            let e: (usize, usize) = g.range.end_index_inclusive().map(|v| v.into()).unwrap_or((usize::MAX, usize::MAX));
            Sel::Grid(path_from_real(&g.row_indices), g.index, s, e)
        }
    }
}

pub fn caret_ends(ctx: &Ctx, cases: &[Row]) {
    ctx.run("a caret whose ends are set one by one", cases, row_json, p_init, |_, tree, l| {
        l.states += 1;
        l.traces += 1;
        let ps = positions(tree);
        let rs = rows(tree);
        let real = InputTree::new(InputRow::new(nodes_to_real(tree)));
        let at = |p: &Pos| InputRowPosition::from_minimal(real.root_focus(), &pos_to_real(p));
        for a in &ps {
            for b in &ps {
                let minimal = MinimalCaret { start_position: pos_to_real(a), end_position: pos_to_real(b) };
                for c in &ps {
                    for end in [true, false] {
                        l.transitions += 1;
                        let (s, e) = if end { (a, c) } else { (c, b) };
                        let got = guard(|| {
                            let mut caret = Caret::from_minimal(&real, &minimal);
                            let there = if end { caret.set_end_position(at(c)).answer() } else { caret.set_start_position(at(c)).answer() };
                            let there: Option<()> = there;
                            there?;
                            let m = caret.to_minimal();
                            Some((m.start_position, m.end_position, seen(caret.selection()), seen(&caret.into_selection())))
                        });
                        let what = format!("a caret from {a:?} to {b:?} whose {} is set to {c:?}", if end { "end" } else { "start" });
                        match got {
                            Err(m) => return l.fail("ends", format!("{what}: {m}")),
                            Ok(None) => {}
                            Ok(Some((gs, ge, sel, into))) => {
                                let want = selection(tree, &rs, &ps, s, e);
                                if (&gs, &ge) != (&pos_to_real(s), &pos_to_real(e)) {
                                    return l.fail("ends", format!("{what} goes from {gs:?} to {ge:?}"));
                                }
                                if sel != want || into != want {
                                    return l.fail("ends", format!("{what} selects {sel:?} / {into:?}, should select {want:?}"));
                                }
                            }
                        }
                    }
                }
            }
        }
        // a whole range at once
        for before in [&ps[0], &ps[ps.len() - 1]] {
            let minimal = MinimalCaret { start_position: pos_to_real(before), end_position: pos_to_real(&ps[ps.len() / 2]) };
            for a in &ps {
                for b in ps.iter().filter(|b| b.path == a.path) {
                    l.transitions += 1;
                    let got = guard(|| {
                        let mut caret = Caret::from_minimal(&real, &minimal);
                        let range = InputRowRange::from_minimal(real.root_focus(), &rng_to_real(&(a.path.clone(), a.off, b.off)));
                        let there: Option<()> = caret.set_selection(range).answer();
                        there?;
                        let m = caret.to_minimal();
                        Some((m.start_position, m.end_position, seen(caret.selection()), seen(&caret.into_selection())))
                    });
                    let what = format!("a caret from {before:?} that is set to the range from {a:?} to {b:?}");
                    match got {
                        Err(m) => return l.fail("ends", format!("{what}: {m}")),
                        Ok(None) => {}
                        Ok(Some((gs, ge, sel, into))) => {
                            let want = selection(tree, &rs, &ps, a, b);
                            if (&gs, &ge) != (&pos_to_real(a), &pos_to_real(b)) {
                                return l.fail("ends", format!("{what} goes from {gs:?} to {ge:?}"));
                            }
                            if sel != want || into != want {
                                return l.fail("ends", format!("{what} selects {sel:?} / {into:?}, should select {want:?}"));
                            }
                        }
                    }
                }
            }
        }
    });
}

#[derive(Clone, Debug, PartialEq)]
struct Done(u32);
#[derive(Clone, Debug, PartialEq)]
struct Taken(u32);
impl Invertible for Done {
    type Inverse = Taken;
    fn inverse(&self) -> Taken {
        Taken(self.0)
    }
}
impl Invertible for Taken {
    type Inverse = Done;
    fn inverse(&self) -> Done {
        Done(self.0)
    }
}

pub fn bare_history(ctx: &Ctx) {
    let n = ctx.pick(11, 13);
    // the first four steps are the case, the others are enumerated within
    let mut firsts: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..4 {
        firsts = firsts.into_iter().flat_map(|w| (0..3).map(move |c| [w.clone(), vec![c]].concat())).collect();
    }
    let name = |w: &[u8]| w.iter().map(|c| ["push", "undo", "redo"][*c as usize]).collect::<Vec<_>>().join(" ");
    ctx.run(
        "the bare history: every word of pushes, undos and redos",
        &firsts,
        |w| serde_json::json!(name(w)),
        || (),
        |_, first, l| {
            l.traces += 1;
            let total = 3u64.pow((n - first.len()) as u32);
            for k in 0..total {
                let mut w = first.clone();
                let mut k = k;
                for _ in first.len()..n {
                    w.push((k % 3) as u8);
                    k /= 3;
                }
                let mut m: UndoRedoManager<Done> = UndoRedoManager::new();
                let (mut list, mut cur): (Vec<u32>, usize) = (vec![], 0);
                let r = guard(|| {
                    for (i, c) in w.iter().enumerate() {
                        l.transitions += 1;
                        match c {
                            0 => {
                                m.push(Done(i as u32));
                                list.truncate(cur);
                                list.push(i as u32);
                                cur += 1;
                            }
                            1 => {
                                let want = cur.checked_sub(1).map(|i| Taken(list[i]));
                                cur = cur.saturating_sub(1);
                                let got = m.undo();
                                if got != want {
                                    return Err(format!("after {}: the undo gives {got:?} instead of {want:?}", name(&w[..=i])));
                                }
                            }
                            _ => {
                                let want = list.get(cur).map(|v| Done(*v));
                                cur += want.is_some() as usize;
                                let got = m.redo();
                                if got != want {
                                    return Err(format!("after {}: the redo gives {got:?} instead of {want:?}", name(&w[..=i])));
                                }
                            }
                        }
                        let can: (Option<bool>, Option<bool>) = (m.can_undo().answer(), m.can_redo().answer());
                        if can.0.is_some_and(|v| v != (cur > 0)) || can.1.is_some_and(|v| v != (cur < list.len())) {
                            return Err(format!("after {}: said to be able to undo / redo: {can:?}; there are {cur} to undo, {} to redo", name(&w[..=i]), list.len() - cur));
                        }
                    }
                    Ok(())
                });
                l.states += 1;
                match r {
                    Err(m) => return l.fail("history", format!("{}: {m}", name(&w))),
                    Ok(Err(m)) => return l.fail("history", m),
                    Ok(Ok(())) => {}
                }
            }
        },
    );
}
