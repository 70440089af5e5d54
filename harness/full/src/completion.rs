//! C33 (histories) and C38: completions inside the editor, explored over every history of commands.
use crate::ed::*;
use crate::editor::*;
use parser::autocomplete::AutocompleteRule;
use std::collections::HashMap;
use vcommon::*;

/// One offered completion: rule number, length of the matched text, number of symbols before the caret.
pub type Offer = (usize, usize, usize);

/// What the editor offers now: the offers in order, and which one is chosen. None: nothing is offered.
pub struct Shown {
    pub offers: Vec<Offer>,
    pub chosen: usize,
    pub at: Pos,
}
pub fn shown(ed: &mut Ed, rules: &[AutocompleteRule]) -> Option<Shown> {
    ed.e.get_autocomplete().map(|a| {
        let (chosen, ms, p) = a.destructure();
        let offers = ms.iter().map(|m| (rules.iter().position(|r| r == m.rule).unwrap_or(usize::MAX), m.rule_match_length, m.input_match_length)).collect();
        Shown { offers, chosen, at: pos_from_real(&p) }
    })
}

/// The start formulas: beginnings, whole tokens and nearly tokens, in the outermost row and inside of containers.
fn formulas(thorough: bool) -> Vec<Row> {
    let s = |t: &str| -> Row { t.split(' ').filter(|x| !x.is_empty()).map(sym).collect() };
    let f = |a: Row, b: Row| N::C(V::Frac, 1, vec![a, b]);
    let mut v = vec![
        vec![],
        s("i n f i"),
        s("1 l i"),
        s("s u s u"),
        vec![sym("x"), f(s("a >"), s("s u")), sym("i"), sym("n")],
        vec![N::C(V::Table, 2, vec![s("l i m s"), s("m"), vec![], s("> =")])],
    ];
    if thorough {
        v.extend([
            s("i n i n f"),
            s("l i m l i m"),
            vec![f(vec![f(s("s q r"), vec![])], s("m a")), sym("t")],
            vec![sym("s"), N::C(V::Sup, 1, vec![s("u m")]), sym("u")],
            vec![N::C(V::Root, 2, vec![s("< ="), s("i n t e g r a")])],
            s("i n t e g r"),
        ]);
    }
    v
}
fn cmds() -> Vec<Cmd> {
    use Cmd::*;
    vec![
        Type(&["i"]),
        Type(&["n"]),
        Type(&["m"]),
        Type(&["s"]),
        Type(&["u"]),
        Type(&["="]),
        Pick(true),
        Pick(false),
        Move(Dir::L),
        Move(Dir::R),
        Move(Dir::D),
        Shift(Dir::L),
        Put(0),
        Put(3),
        Put(4),
        Drag(2),
        Backspace,
        Delete,
        Undo,
        Redo,
        Accept,
        Dismiss,
        Open,
        SelectAll,
    ]
}

// ---------------------------------------------------------------- C33, histories

/// Would the token of offer `m` at `caret` (in `before`) be gone from under the caret in (`then`, `sel_then`), and still be intact?
/// Then: what the formula has to become, and the judge of the caret.
fn replacement(rules: &[AutocompleteRule], before: &Row, caret: &Pos, m: &Offer, then: &Row, sel_then: &Sel, shift: isize) -> Option<(Row, Box<dyn Fn(&Sel) -> bool>)> {
    let path = &caret.path;
    let (blo, bhi) = (caret.off - m.2, caret.off);
    let (lo, hi) = ((blo as isize + shift) as usize, (bhi as isize + shift) as usize);
    let start = match sel_then {
        // where the selection was begun
        Sel::Row(p, a, _) => pos(p, *a),
        _ => return None,
    };
    let inside = (start.path == *path && lo <= start.off && start.off <= hi) || (start.path.len() > path.len() && start.path.starts_with(path) && lo <= start.path[path.len()].0 && start.path[path.len()].0 < hi);
    let row = row_at(before, path).unwrap();
    let intact = row_at(then, path).map(|r| r.len() >= hi && r[lo..hi] == row[blo..bhi]).unwrap_or(false);
    if inside || !intact {
        return None;
    }
    let mut w = then.clone();
    let result = nodes_from_real(&rules[m.0].result);
    row_at_mut(&mut w, path).unwrap().splice(lo..hi, result.iter().cloned());
    let t = tagged(then, &mut 0);
    let mut tw = t.clone();
    let new = tagged(&result, &mut 1000);
    t_row_mut(&mut tw, path).splice(lo..hi, new);
    let (w2, sel_then, path) = (w.clone(), sel_then.clone(), path.clone());
    Some((
        w,
        Box::new(move |got| match (got, &sel_then) {
            (Sel::Row(qp, qa, qb), Sel::Row(pp, pa, pb)) => [(qa, pa), (qb, pb)].iter().all(|(q, p)| {
                let q = pos(qp, **q);
                valid_pos(&w2, &q) && same_place(&t, &pos(pp, **p), &tw, &q) && !inside_new(&q, &path, lo, &result)
            }),
            _ => false,
        }),
    ))
}

pub fn leave_histories(ctx: &Ctx) {
    let rules = app_rules();
    let cmds = cmds();
    let cases = seq_cases(&formulas(ctx.thorough()), &cmds);
    let depth = ctx.pick(4, 5);
    ctx.run("histories", &cases, seq_show, p_init, |parser, (tree, first), l| {
        l.traces += 1;
        let mut visit = |seq: &[Cmd], l: &mut Local| -> bool {
            l.transitions += 1;
            let r = guard(|| {
                let mut ed = Ed::new(parser, tree);
                let mut clip = None;
                for c in &seq[..seq.len() - 1] {
                    run_cmd(&mut ed, &mut clip, c);
                    if ed.sel().is_grid() {
                        return None; // a table selection offers nothing; several commands are not available for it
                    }
                }
                let before = ed.snap();
                let offered = shown(&mut ed, &rules);
                run_cmd(&mut ed, &mut clip, seq.last().unwrap());
                Some((before, offered, ed.snap()))
            });
            let (before, offered, after) = match r {
                Err(e) => {
                    l.fail("histories", format!("{seq:?}: {e}"));
                    return false;
                }
                Ok(None) => return false,
                Ok(Some(v)) => v,
            };
            l.states += 1;
            let ps = positions(&before.tree);
            let at = |k: usize| ps[(ps.len() - 1) * k / 4].clone();
            let caret = before.sel.caret();
            let choice: Option<Offer> = offered.as_ref().map(|s| s.offers[s.chosen]);
            // (formula, selection, may it be left alone although the token is complete, by how much the token moved)
            let expect: Option<(Row, Option<Sel>, bool)> = match (seq.last().unwrap(), &caret) {
                (Cmd::Pick(_) | Cmd::Open | Cmd::Dismiss, _) => {
                    if after != before {
                        l.fail("histories", format!("{seq:?} changes the editor from {} to {}", show(&before.tree), show(&after.tree)));
                    }
                    None
                }
                (Cmd::SelectAll, _) => {
                    if after.tree != before.tree {
                        l.fail("histories", format!("{seq:?} changes the formula from {} to {}", show(&before.tree), show(&after.tree)));
                    }
                    None
                }
                (Cmd::Accept, _) => {
                    let ok = match (&choice, &caret) {
                        (Some(m), Some(caret)) => {
                            let mut want = before.tree.clone();
                            let result = nodes_from_real(&rules[m.0].result);
                            row_at_mut(&mut want, &caret.path).unwrap().splice(caret.off - m.2..caret.off, result.iter().cloned());
                            let t = tagged(&before.tree, &mut 0);
                            let mut tw = t.clone();
                            let new = tagged(&result, &mut 1000);
                            t_row_mut(&mut tw, &caret.path).splice(caret.off - m.2..caret.off, new);
                            l.count("accepted", 1);
                            after.tree == want && after.sel.caret().map(|q| valid_pos(&want, &q) && same_place(&t, caret, &tw, &q)).unwrap_or(false)
                        }
                        _ => after == before,
                    };
                    if !ok {
                        l.fail("histories", format!("{seq:?}: accepting {choice:?} turns {} into {} with the caret at {:?}", show(&before.tree), show(&after.tree), after.sel));
                    }
                    None
                }
                (Cmd::Move(d), Some(p)) => Some((before.tree.clone(), Some(Sel::at(&step(&before.tree, &ps, p, *d).unwrap_or_else(|| p.clone()))), false)),
                (Cmd::Put(k), Some(_)) => Some((before.tree.clone(), Some(Sel::at(&at(*k))), false)),
                (Cmd::Drag(k), Some(p)) => Some((before.tree.clone(), Some(selection(&before.tree, &rows(&before.tree), &ps, p, &at(*k))), false)),
                (Cmd::Shift(d), Some(p)) => {
                    step(&before.tree, &ps, p, *d).map(|to| (before.tree.clone(), Some(selection(&before.tree, &rows(&before.tree), &ps, p, &to)), false))
                }
                (Cmd::Type(s), Some(p)) => {
                    let mut then = before.tree.clone();
                    row_at_mut(&mut then, &p.path).unwrap().splice(p.off..p.off, s.iter().map(|s| sym(s)));
                    Some((then, Some(Sel::at(&pos(&p.path, p.off + s.len()))), true))
                }
                (Cmd::Backspace, Some(p)) if p.off > 0 && row_at(&before.tree, &p.path).unwrap()[p.off - 1].is_sym() => {
                    let mut then = before.tree.clone();
                    row_at_mut(&mut then, &p.path).unwrap().remove(p.off - 1);
                    Some((then, Some(Sel::at(&pos(&p.path, p.off - 1))), true))
                }
                (Cmd::Delete, Some(p)) if row_at(&before.tree, &p.path).unwrap().get(p.off).map(|n| n.is_sym()).unwrap_or(false) => {
                    let mut then = before.tree.clone();
                    row_at_mut(&mut then, &p.path).unwrap().remove(p.off);
                    Some((then, Some(Sel::at(p)), true))
                }
                // with something selected nothing is offered, so these only move
                (Cmd::Move(_) | Cmd::Put(_) | Cmd::Drag(_) | Cmd::Shift(_), None) => Some((before.tree.clone(), None, false)),
                _ => None,
            };
            // a command that replaces nothing leaves nothing to undo
            let replaces = choice.map(|m| m.1 == rules[m.0].parser.len()).unwrap_or(false);
            let quiet = matches!(seq.last().unwrap(), Cmd::Pick(_) | Cmd::Open | Cmd::Dismiss) || (!replaces && matches!(seq.last().unwrap(), Cmd::Move(_) | Cmd::Put(_) | Cmd::Drag(_) | Cmd::Shift(_)));
            if quiet && offered.is_some() && !l.failed() {
                l.count("undone after a command without effect on the formula", 1);
                let undone = guard(|| {
                    let run = |s: &[Cmd]| {
                        let mut ed = Ed::new(parser, tree);
                        let mut clip = None;
                        for c in s {
                            run_cmd(&mut ed, &mut clip, c);
                        }
                        ed.e.undo();
                        ed.tree()
                    };
                    (run(&seq[..seq.len() - 1]), run(seq))
                });
                match undone {
                    Ok((a, b)) if a == b => (),
                    other => l.fail("histories", format!("{seq:?}: the last command replaces nothing, but undo leads to another formula: {:?}", other.map(|(a, b)| (show(&a), show(&b))).map_err(|e| e.msg))),
                }
            }
            if let Some((then, sel_then, may_stay)) = expect {
                let kept = after.tree == then && sel_then.as_ref().map(|s| *s == after.sel).unwrap_or(true);
                let complete = choice.filter(|m| m.1 == rules[m.0].parser.len());
                let replaced = match (complete, &caret, &sel_then) {
                    (Some(m), Some(caret), Some(sel)) => replacement(&rules, &before.tree, caret, &m, &then, sel, 0),
                    _ => None,
                };
                let ok = match &replaced {
                    None => kept,
                    Some((w, place)) => {
                        l.count("tokens left behind", 1);
                        (may_stay && kept) || (after.tree == *w && place(&after.sel))
                    }
                };
                if !ok {
                    l.fail(
                        "histories",
                        format!(
                            "{seq:?}: {} with the caret at {:?} and {choice:?} chosen becomes {} with the caret at {:?}; should {}",
                            show(&before.tree),
                            before.sel,
                            show(&after.tree),
                            after.sel,
                            if replaced.is_some() { "be replaced by the result" } else { "keep everything else" }
                        ),
                    );
                }
            }
            !l.failed()
        };
        let mut prefix = vec![first.clone()];
        if visit(&prefix, l) {
            sequences(&cmds, &mut prefix, depth, &mut |s| visit(s, l));
            // far longer histories: the first command and another one, over and over
            for other in &cmds {
                for n in [24, 25] {
                    let seq: Vec<Cmd> = (0..n).map(|i| if i % 2 == 0 { first.clone() } else { other.clone() }).collect();
                    if l.failed() || !visit(&seq, l) {
                        break;
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C38

pub fn c38(ctx: &Ctx) {
    let rules = app_rules();
    let cmds = cmds();
    let depth = ctx.pick(4, 5);
    let cases = seq_cases(&formulas(ctx.thorough()), &cmds);
    ctx.run(
        "histories",
        &cases,
        seq_show,
        || (p_init(), HashMap::<(Row, Pos), Vec<Offer>>::new()),
        |(parser, known), (tree, first), l| {
            l.traces += 1;
            let mut visit = |seq: &[Cmd], l: &mut Local| -> bool {
                l.transitions += 1;
                // looked at after every command, and looked at only before and after the last command
                let watched = guard(|| {
                    let mut ed = Ed::new(parser, tree);
                    let mut clip = None;
                    let mut prev = shown(&mut ed, &rules).map(|s| (s.offers, s.chosen));
                    for c in &seq[..seq.len() - 1] {
                        run_cmd(&mut ed, &mut clip, c);
                        if ed.sel().is_grid() {
                            return None;
                        }
                        prev = shown(&mut ed, &rules).map(|s| (s.offers, s.chosen));
                    }
                    let at_caret = ed.sel().caret().is_some();
                    run_cmd(&mut ed, &mut clip, seq.last().unwrap());
                    let s = shown(&mut ed, &rules);
                    Some((prev, at_caret, s, ed.snap()))
                });
                let (prev, at_caret, now, snap) = match watched {
                    Err(e) => {
                        l.fail("choice", format!("{seq:?}: {e}"));
                        return false;
                    }
                    Ok(None) => return false,
                    Ok(Some(v)) => v,
                };
                if snap.sel.is_grid() && now.is_none() {
                    return false;
                }
                l.states += 1;
                let alone = guard(|| {
                    let mut ed = Ed::new(parser, tree);
                    let mut clip = None;
                    for c in seq {
                        run_cmd(&mut ed, &mut clip, c);
                    }
                    ed.snap()
                });
                match alone {
                    Ok(s) if s == snap => (),
                    other => {
                        l.fail("choice", format!("{seq:?}: looking at the completions changes the outcome from {:?} to {} {:?}", other.map(|s| (show(&s.tree), s.sel)).map_err(|e| e.msg), show(&snap.tree), snap.sel));
                        return false;
                    }
                }
                // what has to be offered, in which order
                let caret = snap.sel.caret();
                let mut want: Vec<Offer> = match &caret {
                    Some(p) => reference_matches(&rules, row_at(&snap.tree, &p.path).unwrap(), p.off, 2),
                    None => vec![],
                };
                let Some(now) = now else {
                    if !want.is_empty() {
                        l.fail("offers", format!("{seq:?}: nothing is offered in {} at {:?}", show(&snap.tree), snap.sel));
                    }
                    return !l.failed();
                };
                let order = match &caret {
                    Some(p) => known.entry((snap.tree.clone(), p.clone())).or_insert_with(|| {
                        let mut ed = Ed::new(parser, &snap.tree);
                        ed.put(p);
                        shown(&mut ed, &rules).map(|s| s.offers).unwrap_or_default()
                    }),
                    None => {
                        l.fail("offers", format!("{seq:?}: completions are offered although there is no caret: {:?}", snap.sel));
                        return false;
                    }
                };
                let mut got = now.offers.clone();
                got.sort();
                want.sort();
                if got != want || now.offers != *order || now.at != caret.clone().unwrap() || now.chosen >= now.offers.len() {
                    l.fail("offers", format!("{seq:?}: offered in {} at {:?}: {:?} (number {} chosen), should be {want:?} in the order {order:?}", show(&snap.tree), now.at, now.offers, now.chosen));
                    return false;
                }
                l.max("offers at once", got.len() as u64);
                // which one is chosen
                let offer = |k: usize| now.offers[k];
                match (seq.last().unwrap(), &prev) {
                    (Cmd::Pick(down), Some((before, i))) => {
                        let to = if *down { (i + 1).min(before.len() - 1) } else { i.saturating_sub(1) };
                        l.count("steps", 1);
                        if now.chosen != to || now.offers != *before {
                            l.fail("choice", format!("{seq:?}: stepping {} from number {i} of {before:?} leads to number {}", if *down { "down" } else { "up" }, now.chosen));
                        }
                    }
                    (_, Some((before, i))) => {
                        let was = before[*i];
                        let again: Vec<usize> = (0..now.offers.len()).filter(|k| offer(*k).0 == was.0).collect();
                        let same: Vec<usize> = again.iter().cloned().filter(|k| offer(*k) == was).collect();
                        let ok = if !same.is_empty() && now.offers == *before {
                            now.chosen == *i
                        } else if !again.is_empty() {
                            l.count("still offered", 1);
                            again.contains(&now.chosen)
                        } else {
                            l.count("no longer offered", 1);
                            now.chosen == 0
                        };
                        if !ok {
                            l.fail("choice", format!("{seq:?}: number {i} of {before:?} was chosen, then number {} of {:?}", now.chosen, now.offers));
                        }
                    }
                    // a choice ends where nothing is offered
                    (Cmd::Pick(_), None) => (),
                    (_, None) => {
                        if at_caret && seq.len() > 1 {
                            l.count("offered again", 1);
                            if now.chosen != 0 {
                                l.fail("choice", format!("{seq:?}: nothing was offered before, then number {} of {:?} is chosen", now.chosen, now.offers));
                            }
                        }
                    }
                }
                !l.failed()
            };
            let mut prefix = vec![first.clone()];
            if visit(&prefix, l) {
                sequences(&cmds, &mut prefix, depth, &mut |s| visit(s, l));
                // far longer histories: the first command and another one, over and over
                for other in &cmds {
                    for n in [24, 25] {
                        let seq: Vec<Cmd> = (0..n).map(|i| if i % 2 == 0 { first.clone() } else { other.clone() }).collect();
                        if l.failed() || !visit(&seq, l) {
                            break;
                        }
                    }
                }
            }
        },
    );
}
