//! C22 (autocomplete), C23 (totality and cost), C24 (ranges), C25 (grouping), C26 (purity), C27 (cells),
//! C28 (spaces), C29 (names).
use crate::ed::{make_parser, modules_list};
use crate::editor::{app_rules, reference_matches};
use crate::grammar::*;
use input_tree::node::InputNode;
use parser::autocomplete::{AutocompleteMatcher, AutocompleteRule, AutocompleteRules};
use parser::parse_module::*;
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules, collections_rules::CollectionsRules,
    comparison_rules::ComparisonRules, core_rules::CoreRules, function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use parser::syntax_tree::{PathIdentifier, SyntaxNodeNameId};
use std::rc::Rc;
use crate::grammar::T;
use serde_json::json;
use vcommon::*;

type P = (MathParser, ParseModules);
fn parse(p: &P, row: &[InputNode]) -> Sn {
    view(&p.0.parse(row), names(&p.1))
}
fn texts(t: &[&Tok]) -> String {
    t.iter().map(|t| t.text).collect::<Vec<_>>().join(" ")
}
/// Cases are the first tokens of a sequence; the rest is enumerated inside of the case.
fn starts(n: usize, by: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..by {
        out = out.iter().flat_map(|s: &Vec<usize>| (0..n).map(move |k| [s.clone(), vec![k]].concat())).collect();
    }
    out
}
/// All sequences of tokens (as indices) that start with `seq`, up to a length, for which `go` says to go on.
fn extend(seq: &mut Vec<usize>, n: usize, max: usize, go: &mut dyn FnMut(&[usize]) -> bool) {
    if !go(seq) || seq.len() == max {
        return;
    }
    for k in 0..n {
        seq.push(k);
        extend(seq, n, max, go);
        seq.pop();
    }
}
/// Runs `each` on every token sequence up to `max` tokens.
fn sequences(ctx: &Ctx, phase: &str, tokens: &[Tok], max: usize, each: impl Fn(&P, &[&Tok], &mut Local) -> bool + Sync) {
    let by = 2.min(max);
    let mut cases: Vec<Vec<usize>> = (0..by).flat_map(|b| starts(tokens.len(), b)).collect();
    cases.extend(starts(tokens.len(), by));
    ctx.run(
        &format!("{phase}, up to {max} of {} tokens", tokens.len()),
        &cases,
        |c| json!(c.iter().map(|k| tokens[*k].text).collect::<Vec<_>>()),
        make_parser,
        |p, case, l| {
            let limit = if case.len() < by { case.len() } else { max };
            extend(&mut case.clone(), tokens.len(), limit, &mut |s| {
                let t: Vec<&Tok> = s.iter().map(|k| &tokens[*k]).collect();
                !l.failed() && each(p, &t, l)
            });
        },
    );
}
fn junk_tokens() -> Vec<Tok> {
    vec![space(), junk("?"), junk("."), junk("\""), junk("\\"), junk("π́"), junk("}")]
}
fn every_token() -> Vec<Tok> {
    let mut t = app_tokens();
    t.extend(junk_tokens());
    t
}
/// Symbols of all sorts, from every part of Unicode, of every length, alone and between all tokens.
fn odd_rows(ctx: &Ctx, judge: impl Fn(&P, &Row, &mut Local) + Sync) {
    let mut symbols: Vec<String> = ODD.iter().map(|s| s.to_string()).collect();
    symbols.extend((0..=0x7f).filter_map(char::from_u32).map(String::from));
    symbols.extend((0x80..0x20000).step_by(ctx.pick(0x71, 0x11)).filter_map(char::from_u32).map(String::from));
    symbols.push("\u{1F468}\u{200D}\u{1F469}\u{200D}\u{1F467}\u{200D}\u{1F466}".into());
    for n in [2, 7, 8, 15, 16, 31, 32, 64, 255, 256, 300] {
        symbols.push(format!("e{}", "\u{301}".repeat(n)));
        symbols.push("a".repeat(n));
        symbols.push("?".repeat(n));
    }
    symbols.sort();
    symbols.dedup();
    let all = every_token();
    ctx.run("symbols of all sorts between all tokens", &symbols, |s| json!(s), make_parser, |p, s, l| {
        l.traces += 1;
        let s = sym(s);
        let mut rows: Vec<Row> = vec![vec![s.clone()], vec![s.clone(); 2], vec![s.clone(); 9], vec![sym("\""), s.clone(), sym("\"")], vec![sym("\""), sym("\\"), s.clone(), sym("\"")]];
        rows.extend((1..4).map(|w| vec![sym("x"), N::C(V::Table, w, vec![vec![s.clone(), s.clone()]; w * 2]), s.clone()]));
        for t in &all {
            rows.push([vec![s.clone()], t.nodes.clone()].concat());
            rows.push([t.nodes.clone(), vec![s.clone()]].concat());
            rows.push([t.nodes.clone(), vec![s.clone()], t.nodes.clone()].concat());
            rows.push([vec![s.clone()], t.nodes.clone(), vec![s.clone()]].concat());
        }
        for r in rows {
            if l.failed() {
                return;
            }
            judge(p, &r, l);
        }
    });
}
fn of(texts: &str) -> Vec<Tok> {
    pick(&every_token(), texts)
}

// ---------------------------------------------------------------- C22

pub fn c22(ctx: &Ctx) {
    let check = |rules: &[AutocompleteRule], got: &dyn Fn(&[InputNode], usize, usize) -> Vec<(AutocompleteRule, usize, usize, bool)>, row: &Row, l: &mut Local| {
        let real = nodes_to_real(row);
        for caret in 0..=row.len() {
            for min in (0..=row.len().min(4) + 1).chain((6..=row.len()).step_by(7)) {
                l.transitions += 1;
                let mut want: Vec<(usize, usize, usize, bool)> =
                    reference_matches(rules, row, caret, min).into_iter().map(|(k, a, b)| (k, a, b, a == rules[k].parser.len())).collect();
                let mut have: Vec<(usize, usize, usize, bool)> = match guard(|| got(&real, caret, min)) {
                    Err(e) => return l.fail("offers", format!("caret {caret}, at least {min} symbols: {e}")),
                    Ok(v) => v.into_iter().map(|(r, a, b, c)| (rules.iter().position(|k| *k == r).unwrap(), a, b, c)).collect(),
                };
                want.sort();
                have.sort();
                if want != have {
                    let name = |v: &Vec<(usize, usize, usize, bool)>| v.iter().map(|m| format!("{:?} ({} of the text, {} symbols, complete {})", rules[m.0].parser, m.1, m.2, m.3)).collect::<Vec<_>>();
                    return l.fail("offers", format!("caret {caret}, at least {min} symbols: offered {:?}, should be {:?}", name(&have), name(&want)));
                }
            }
        }
    };
    // 1. rules made for this: overlapping, repeating, multi-byte
    let texts = ["a", "ab", "aa", "aab", "aba", "abab", "é", "éa", "aé", "ééé", "a∞b", "∞∞", "b́a", "lim", "𝔸b𝔸"];
    let symbols = ["a", "b", "é", "∞", "ab", "aa", "́", "𝔸"];
    let rules: Vec<AutocompleteRule> = texts.iter().map(|t| AutocompleteRule::new(*t, vec![InputNode::symbol(*t)])).collect();
    let max = ctx.pick(5, 7);
    let mut alphabet: Vec<N> = symbols.iter().map(|s| sym(s)).collect();
    alphabet.push(N::C(V::Frac, 1, vec![vec![sym("a")], vec![sym("b")]]));
    let cases: Vec<Vec<usize>> = (0..3).flat_map(|n| starts(alphabet.len(), n)).collect();
    let set = || AutocompleteRules(rules.clone());
    ctx.run(
        &format!("rows of up to {max} symbols against {} rules", texts.len()),
        &cases,
        |c| row_json(&c.iter().map(|k| alphabet[*k].clone()).collect()),
        set,
        |set, c, l| {
            l.traces += 1;
            let top = if c.len() < 2 { c.len() } else { max };
            extend(&mut c.clone(), alphabet.len(), top, &mut |s| {
                l.states += 1;
                let row: Row = s.iter().map(|k| alphabet[*k].clone()).collect();
                check(
                    &rules,
                    &|r, caret, min| set.matches(r, caret, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
                    &row,
                    l,
                );
                !l.failed()
            });
        },
    );
    // 1b. long texts, and many rules for the same text
    let mut many: Vec<AutocompleteRule> = (1..=40).map(|n| AutocompleteRule::new("ab".repeat(20)[..n].to_string(), vec![InputNode::symbol(format!("r{n}"))])).collect();
    many.extend((0..20).map(|k| AutocompleteRule::new(format!("abb{}", "c".repeat(k)), vec![InputNode::symbol(format!("q{k}"))])));
    let mut cases: Vec<Row> = (0..=60).map(|n| (0..n).map(|i| sym(if i % 2 == 0 { "a" } else { "b" })).collect()).collect();
    cases.extend((1..=44).map(|n| vec![sym("b"), sym(&"ab".repeat(22)[..n]), sym("a")]));
    cases.extend((0..=24).map(|n| ["x", "a", "b", "b"].iter().map(|s| sym(s)).chain((0..n).map(|_| sym("c"))).collect()));
    ctx.run("long texts, and many rules for the same text", &cases, row_json, || AutocompleteRules(many.clone()), |set, row, l| {
        l.traces += 1;
        l.states += 1;
        check(
            &many,
            &|r, caret, min| set.matches(r, caret, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
            row,
            l,
        );
    });
    // 1c. what looks or sounds the same but is written differently
    let texts = ["a", "A", "aB", "Ab", "é", "É", "e\u{301}", "e\u{301}a", "ß", "ss", "ﬁ", "fi", "K", "\u{212a}", "k", "ａ", "x ", " x", "1", "１"];
    let symbols = ["a", "A", "b", "B", "é", "É", "e", "\u{301}", "ß", "s", "ﬁ", "f", "i", "\u{212a}", "K", "k", "ａ", "x", " ", "1", "１"];
    let alike: Vec<AutocompleteRule> = texts.iter().map(|t| AutocompleteRule::new(*t, vec![InputNode::symbol(*t)])).collect();
    let cases: Vec<Vec<usize>> = (0..3).flat_map(|n| starts(symbols.len(), n)).collect();
    let max = ctx.pick(3, 4);
    ctx.run(&format!("letters which look the same, rows of up to {max} symbols"), &cases, |c| json!(c.iter().map(|k| symbols[*k]).collect::<Vec<_>>()), || AutocompleteRules(alike.clone()), |set, c, l| {
        l.traces += 1;
        let top = if c.len() < 2 { c.len() } else { max };
        extend(&mut c.clone(), symbols.len(), top, &mut |s| {
            l.states += 1;
            let row: Row = s.iter().map(|k| sym(symbols[*k])).collect();
            check(
                &alike,
                &|r, caret, min| set.matches(r, caret, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
                &row,
                l,
            );
            !l.failed()
        });
    });
    // 2. the application's rules through the parser
    let rules = app_rules();
    let mut letters: Vec<String> = rules.iter().flat_map(|r| r.parser.chars().map(|c| c.to_string())).collect();
    letters.sort();
    letters.dedup();
    let mut alphabet: Vec<N> = letters.iter().map(|s| sym(s)).collect();
    alphabet.extend([sym("im"), sym("lim"), sym(">="), N::C(V::Sup, 1, vec![vec![]])]);
    let cases: Vec<Vec<usize>> = (0..3).flat_map(|n| starts(alphabet.len(), n)).collect();
    let max = ctx.pick(4, 5);
    ctx.run(
        &format!("the application's rules, rows of up to {max} symbols"),
        &cases,
        |c| row_json(&c.iter().map(|k| alphabet[*k].clone()).collect()),
        make_parser,
        |p, c, l| {
            l.traces += 1;
            let top = if c.len() < 2 { c.len() } else { max };
            extend(&mut c.clone(), alphabet.len(), top, &mut |s| {
                l.states += 1;
                let row: Row = s.iter().map(|k| alphabet[*k].clone()).collect();
                check(
                    &rules,
                    &|r, caret, min| p.0.matches(r, caret, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
                    &row,
                    l,
                );
                !l.failed()
            });
        },
    );
    // 2b. every rule in every mixture of small and capital letters
    let cases: Vec<usize> = (0..rules.len()).collect();
    ctx.run("every rule, in small and capital letters", &cases, |k| json!(rules[*k].parser), make_parser, |p, k, l| {
        l.traces += 1;
        let chars: Vec<char> = rules[*k].parser.chars().collect();
        for caps in 0..1u32 << chars.len().min(10) {
            l.states += 1;
            let row: Row = chars.iter().enumerate().map(|(i, c)| if caps >> i & 1 == 1 { sym(&c.to_uppercase().to_string()) } else { sym(&c.to_string()) }).collect();
            check(
                &rules,
                &|r, caret, min| p.0.matches(r, caret, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
                &row,
                l,
            );
        }
    });
    // 3. every rule typed in full, in every way of cutting it into symbols, behind other text
    let cases: Vec<usize> = (0..rules.len()).collect();
    ctx.run(
        "every rule, cut into symbols in every way",
        &cases,
        |k| json!(rules[*k].parser),
        make_parser,
        |p, k, l| {
            l.traces += 1;
            let chars: Vec<char> = rules[*k].parser.chars().collect();
            for cuts in 0..1u32 << (chars.len() - 1) {
                let mut parts = vec![String::new()];
                for (i, c) in chars.iter().enumerate() {
                    parts.last_mut().unwrap().push(*c);
                    if cuts >> i & 1 == 1 {
                        parts.push(String::new());
                    }
                }
                for before in [vec![], vec!["s"], vec!["x", "l"], vec!["", "1"]] {
                    l.states += 1;
                    let row: Row = before.iter().map(|s| sym(s)).chain(parts.iter().map(|s| sym(s))).chain([sym("z")]).filter(|n| *n != sym("")).collect();
                    check(
                        &rules,
                        &|r, caret, min| p.0.matches(r, caret, min).iter().map(|m| (m.rule.clone(), m.rule_match_length, m.input_match_length, m.is_complete_match())).collect(),
                        &row,
                        l,
                    );
                    if l.failed() {
                        return;
                    }
                }
            }
        },
    );
}

// ---------------------------------------------------------------- C23

/// How deep the brackets that are known to be parsed more than once are nested in each other, through containers, too:
/// those without a closing bracket, and those that follow a symbol no rule knows.
fn retried_depth(row: &Row) -> usize {
    // for every closing bracket not matched yet: how deep it is inside of the pair so far
    let mut pairs: Vec<usize> = vec![];
    let mut inside = 0;
    for (i, n) in row.iter().enumerate().rev() {
        match n {
            N::S(s) if s == ")" => {
                pairs.push(inside);
                inside = 0;
            }
            N::S(s) if s == "(" => {
                let before = row[..i].iter().rev().find(|n| **n != sym(" "));
                let retried = match before {
                    Some(N::S(s)) => ["?", ".", "\"", "\\", "π́", "}"].contains(&s.as_str()),
                    _ => false,
                };
                match pairs.pop() {
                    None => inside += 1,
                    Some(beside) => inside = beside.max(inside + retried as usize),
                }
            }
            N::S(_) => {}
            N::C(_, _, c) => inside = inside.max(c.iter().map(retried_depth).max().unwrap_or(0)),
        }
    }
    inside.max(pairs.into_iter().max().unwrap_or(0))
}
const STEPS: u64 = 3_000_000;
fn budget(row: &Row) -> u64 {
    // generous: measured cost is far below (see the evidence's max_* counters)
    let n = row_weight(row) as u64 + 2;
    2_000 * n * n
}
/// None: within the budget
fn cost(p: &P, row: &Row, real: &[InputNode], limit: u64) -> Result<(u64, Option<Sn>), PanicInfo> {
    chumsky::stats::start(budget(row).min(limit));
    let r = guard(|| parse(p, real));
    let steps = chumsky::stats::steps();
    chumsky::stats::start(u64::MAX);
    match r {
        Ok(t) => Ok((steps, Some(t))),
        Err(e) if e.msg == chumsky::stats::LIMIT_MESSAGE => Ok((steps, None)),
        Err(e) => Err(e),
    }
}
fn judge_cost(p: &P, row: &Row, what: &dyn Fn() -> String, l: &mut Local) {
    // the known exponential growth (see the last phase): crashes are looked for, but not at any price
    let known = retried_depth(row) > 3;
    l.states += 1;
    l.transitions += 1;
    let real = nodes_to_real(row);
    match cost(p, row, &real, if known { STEPS / 60 } else { STEPS * 10 }) {
        Ok((_, None)) if known => l.count("given_up_on_known_finding", 1),
        Err(e) => l.fail("crash", format!("{}: {e}", what())),
        Ok((steps, None)) => {
            l.fail("cost", format!("{}: gave up after {steps} steps on {} nodes", what(), row_weight(row)));
        }
        Ok((steps, Some(t))) => {
            let n = row_weight(row) as u64 + 2;
            l.max("steps_per_square_of_size", steps / (n * n));
            l.max("steps", steps);
            if t.start != 0 || t.end != row.len() {
                l.fail("incomplete", format!("{}: the syntax tree covers {}..{} of {}", what(), t.start, t.end, row.len()));
            }
        }
    }
}
pub fn c23(ctx: &Ctx) {
    ctx.assume("time is counted as the number of times the parser looks at an input node; the measured budget is 2000 n^2 for a formula of n nodes");
    ctx.case_limit(600);
    let all = every_token();
    sequences(ctx, "every sequence", &all, ctx.pick(3, 4), |p, t, l| {
        l.traces += 1;
        judge_cost(p, &row_of(t), &|| texts(t), l);
        true
    });
    let few = of("1 x ( ) + ! ␣ ? , \"");
    sequences(ctx, "every sequence of the most entangled tokens", &few, ctx.pick(6, 7), |p, t, l| {
        l.traces += 1;
        judge_cost(p, &row_of(t), &|| texts(t), l);
        true
    });
    odd_rows(ctx, |p, row, l| judge_cost(p, row, &|| show(row), l));
    // repeating families: head unit^n middle unit^n
    let units: Vec<Vec<usize>> = (1..=2).flat_map(|k| starts(all.len(), k)).collect();
    let closers: Vec<Option<usize>> = std::iter::once(None).chain(["(", ")", "x", "!", "+", "␣"].iter().map(|t| all.iter().position(|k| k.text == *t))).collect();
    let lengths: &[usize] = ctx.pick(&[4, 8, 16], &[4, 8, 16, 32]);
    ctx.run(
        "repetitions of one or two tokens, with repeated closers",
        &units,
        |u| json!(u.iter().map(|k| all[*k].text).collect::<Vec<_>>()),
        make_parser,
        |p, u, l| {
            l.traces += 1;
            let unit: Vec<&Tok> = u.iter().map(|k| &all[*k]).collect();
            for c in &closers {
                for middle in [None, Some("x")] {
                    for n in lengths {
                        let mut row = vec![];
                        for _ in 0..*n {
                            row.extend(row_of(&unit));
                        }
                        if let Some(m) = middle {
                            row.push(sym(m));
                        }
                        if let Some(c) = c {
                            for _ in 0..*n {
                                row.extend(all[*c].nodes.iter().cloned());
                            }
                        }
                        judge_cost(p, &row, &|| format!("({})^{n} {} {}^{n}", texts(&unit), middle.unwrap_or(""), c.map(|c| all[c].text).unwrap_or("")), l);
                        if l.failed() {
                            break;
                        }
                    }
                }
            }
        },
    );
    // nesting families: before [cell] after, n times
    let around = of("x + ! ( ) ∑ - ␣ ? * =");
    let kinds: [(V, usize, usize, usize); 6] = [(V::Frac, 1, 2, 0), (V::Frac, 1, 2, 1), (V::Root, 2, 2, 1), (V::Sup, 1, 1, 0), (V::Sub, 1, 1, 0), (V::Table, 2, 4, 3)];
    let mut cases: Vec<(Vec<usize>, usize, Vec<usize>)> = vec![];
    for a in (0..=ctx.pick(3, 4)).flat_map(|k| starts(around.len(), k)) {
        for k in 0..kinds.len() {
            for b in (0..=1).flat_map(|k| starts(around.len(), k)) {
                cases.push((a.clone(), k, b));
            }
        }
    }
    let depths: &[usize] = ctx.pick(&[3, 6, 12], &[3, 6, 12, 24]);
    ctx.run(
        "nested containers with tokens around them",
        &cases,
        |(a, k, b)| json!([a.iter().map(|k| around[*k].text).collect::<Vec<_>>(), format!("{:?}", kinds[*k]), b.iter().map(|k| around[*k].text).collect::<Vec<_>>()]),
        make_parser,
        |p, (a, k, b), l| {
            l.traces += 1;
            let before = row_of(&a.iter().map(|k| &around[*k]).collect::<Vec<_>>());
            let after = row_of(&b.iter().map(|k| &around[*k]).collect::<Vec<_>>());
            let (v, w, count, cell) = kinds[*k];
            for d in depths {
                let mut row: Row = vec![sym("x")];
                for _ in 0..*d {
                    let mut cells = vec![vec![]; count];
                    cells[cell] = row;
                    row = before.clone();
                    row.push(N::C(v, w, cells));
                    row.extend(after.iter().cloned());
                }
                judge_cost(p, &row, &|| format!("{} [..] {} nested {d} deep", show(&before), show(&after)), l);
                if l.failed() {
                    return;
                }
            }
        },
    );
    // the known ones
    let cases: Vec<usize> = (1..=ctx.pick(20, 24)).collect();
    ctx.run("nested brackets behind an unknown symbol", &cases, |n| json!(n), make_parser, |p, n, l| {
        l.traces += 1;
        l.states += 1;
        l.transitions += 1;
        let row: Row = (0..*n).flat_map(|_| [sym("?"), sym("(")]).chain((0..*n).map(|_| sym(")"))).collect();
        let real = nodes_to_real(&row);
        match cost(p, &row, &real, STEPS * 10) {
            Ok((steps, Some(_))) => l.max("steps_brackets_behind_unknown", steps),
            Ok((steps, None)) => l.fail(if *n > 3 { "brackets-behind-unknown-exponential" } else { "cost" }, format!("{n} nested brackets behind a ?: gave up after {steps} steps")),
            Err(e) => l.fail("crash", format!("{n} nested brackets: {e}")),
        }
    });
    let cases: Vec<usize> = (1..=ctx.pick(16, 18)).collect();
    ctx.run("nothing but opening brackets", &cases, |n| json!(n), make_parser, |p, n, l| {
        l.traces += 1;
        l.states += 1;
        l.transitions += 1;
        let row: Row = (0..*n).map(|_| sym("(")).collect();
        let real = nodes_to_real(&row);
        match cost(p, &row, &real, STEPS * 10) {
            Ok((steps, Some(_))) => l.max("steps_opening_brackets", steps),
            Ok((steps, None)) => l.fail(if *n > 3 { "unclosed-brackets-exponential" } else { "cost" }, format!("{n} opening brackets: gave up after {steps} steps")),
            Err(e) => l.fail("crash", format!("{n} opening brackets: {e}")),
        }
    });
}

// ---------------------------------------------------------------- C24

/// Everything that has to hold for the ranges of a tree over a row.
fn ranges(n: &Sn, row: &Row, whole: bool) -> Result<(), String> {
    if n.start > n.end || n.end > row.len() || (whole && (n.start, n.end) != (0, row.len())) {
        return Err(format!("{} has range {}..{} in a row of {}", n.name, n.start, n.end, row.len()));
    }
    match &n.kids {
        Kids::Kids(c) => {
            let mut at = n.start;
            for k in c {
                if k.start != at {
                    return Err(format!("{} {}..{}: child {} starts at {} instead of {at}", n.name, n.start, n.end, k.name, k.start));
                }
                ranges(k, row, false)?;
                at = k.end;
            }
            if at != n.end {
                return Err(format!("{} {}..{}: the children end at {at}", n.name, n.start, n.end));
            }
        }
        Kids::Leaf(_, symbols) => {
            if n.start == n.end {
                return Err(format!("{} is an empty leaf at {}", n.name, n.start));
            }
            let mut own: Vec<String> = vec![];
            for x in &row[n.start..n.end] {
                match x {
                    N::S(t) => own.push(t.clone()),
                    N::C(..) => return Err(format!("leaf {} {}..{} covers a container", n.name, n.start, n.end)),
                }
            }
            if own != *symbols {
                return Err(format!("leaf {} {}..{} contains {symbols:?}, the formula has {own:?} there", n.name, n.start, n.end));
            }
        }
        Kids::Rows(w, c) => {
            if n.end != n.start + 1 {
                return Err(format!("{} {}..{} with cells is not one node wide", n.name, n.start, n.end));
            }
            match &row[n.start] {
                N::C(_, cw, cells) => {
                    if cw != w || cells.len() != c.len() {
                        return Err(format!("{} has {} cells in width {w}, the formula {} in width {cw}", n.name, c.len(), cells.len()));
                    }
                    for (k, cell) in c.iter().zip(cells) {
                        ranges(k, cell, true)?;
                    }
                }
                N::S(s) => return Err(format!("{} has cells, the formula {s:?} there", n.name)),
            }
        }
    }
    Ok(())
}
fn judge_ranges(p: &P, row: &Row, l: &mut Local) {
    l.states += 1;
    l.transitions += 1;
    let real = nodes_to_real(row);
    match guard(|| parse(p, &real)) {
        Err(e) => l.fail("ranges", format!("{}: {e}", show(row))),
        Ok(t) => {
            if let Err(e) = ranges(&t, row, true) {
                l.fail("ranges", format!("{}: {e}; tree {:?}", show(row), shape(&t)));
            }
        }
    }
}
pub fn c24(ctx: &Ctx) {
    let all = every_token();
    sequences(ctx, "every sequence", &all, ctx.pick(3, 4), |p, t, l| {
        l.traces += 1;
        judge_ranges(p, &row_of(t), l);
        true
    });
    let few = of("1 x ( ) + - ! ␣ ? sub[]");
    sequences(ctx, "every sequence of a few tokens", &few, ctx.pick(6, 7), |p, t, l| {
        l.traces += 1;
        judge_ranges(p, &row_of(t), l);
        true
    });
    // what tokens are made of, in every order
    let pieces = of("1 x . ␣ \" \\");
    sequences(ctx, "every sequence of pieces of numbers, names and strings", &pieces, ctx.pick(7, 8), |p, t, l| {
        l.traces += 1;
        judge_ranges(p, &row_of(t), l);
        true
    });
    let pieces: Vec<Tok> = ["l", "i", "m", "s", "u", "p", " ", "=", "<", ">"].into_iter().map(junk).collect();
    sequences(ctx, "every sequence of pieces of words", &pieces, ctx.pick(5, 6), |p, t, l| {
        l.traces += 1;
        judge_ranges(p, &row_of(t), l);
        true
    });
    // structure: every shape of formula, with symbols that mean something
    let shapes = union(vec![large(), families(ctx.pick(10, 16), ctx.pick(6, 9), ctx.pick(4, 6)), all_trees(ctx.pick(4, 5), ALL_KINDS), all_trees(ctx.pick(5, 6), SMALL_KINDS)]);
    odd_rows(ctx, |p, row, l| judge_ranges(p, row, l));
    const MEANING: [&str; 6] = ["+", "(", "x", "!", " ", "2"];
    ctx.run("every shape of formula, six labellings", &shapes, row_json, make_parser, |p, row, l| {
        l.traces += 1;
        for shift in 0..MEANING.len() {
            fn label(r: &Row, next: &mut usize) -> Row {
                r.iter()
                    .map(|n| match n {
                        N::S(_) => {
                            *next += 1;
                            sym(MEANING[*next % MEANING.len()])
                        }
                        N::C(v, w, c) => N::C(*v, *w, c.iter().map(|c| label(c, next)).collect()),
                    })
                    .collect()
            }
            judge_ranges(p, &label(row, &mut shift.clone()), l);
        }
    });
}

// ---------------------------------------------------------------- C25

fn judge_grouping(p: &P, t: &[&Tok], want: &T, l: &mut Local) {
    let row = row_of(t);
    let real = nodes_to_real(&row);
    l.transitions += 1;
    match guard(|| shape(&parse(p, &real))) {
        Err(e) => l.fail("grouping", format!("{}: {e}", texts(t))),
        Ok(got) => {
            if got != *want {
                l.fail("grouping", format!("{} reads {got:?}, should read {want:?}", texts(t)));
            }
        }
    }
}
fn grouping(ctx: &Ctx, phase: &str, tokens: &[Tok], max: usize) {
    sequences(ctx, phase, tokens, max, |p, t, l| {
        if t.windows(2).any(|w| merges(w[0], w[1])) || !viable(t) {
            return false;
        }
        l.states += 1;
        if let Some(want) = reference(t, Some(100)) {
            l.traces += 1;
            judge_grouping(p, t, &want, l);
        }
        true
    });
}
fn l_step(n: usize) -> bool {
    n < 24 || n % 5 == 0
}
/// A module with operators of chosen strengths.
struct Custom {
    rules: Vec<ParseRule>,
}
impl ParseModule for Custom {
    fn get_module_name(&self) -> &str {
        "Custom"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.rules
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &[]
    }
}
/// Expressions of three or four operands with every operator between them, and every operator before and behind them.
fn ladders(ctx: &Ctx) {
    let all = app_tokens();
    let x = || all.iter().find(|t| t.text == "x").unwrap();
    let of_role = |f: fn(&Role) -> bool| all.iter().filter(|t| f(&t.role)).collect::<Vec<&Tok>>();
    let infixes = of_role(|r| matches!(r, Role::Infix(..) | Role::Both(..)));
    let before = of_role(|r| matches!(r, Role::Prefix(..) | Role::Both(..)));
    let behind = of_role(|r| matches!(r, Role::Postfix(..) | Role::Script(..)));
    let top = ctx.pick(3, 4);
    let cases: Vec<(usize, usize)> = (0..infixes.len()).flat_map(|a| (0..infixes.len()).map(move |b| (a, b))).collect();
    ctx.run(
        &format!("every {} infix operators between operands, up to {top} in a row, with every operator before and behind", infixes.len()),
        &cases,
        |c| json!([infixes[c.0].text, infixes[c.1].text]),
        make_parser,
        |p, &(a, b), l| {
            let judge = |t: &[&Tok], l: &mut Local| {
                if t.windows(2).any(|w| merges(w[0], w[1])) {
                    return;
                }
                l.states += 1;
                if let Some(want) = reference(t, Some(100)) {
                    l.traces += 1;
                    judge_grouping(p, t, &want, l);
                }
            };
            let ops = [infixes[a], infixes[b]];
            let mut rest: Vec<Vec<usize>> = vec![vec![]];
            while let Some(r) = rest.pop() {
                let mut t = vec![x(), ops[0], x(), ops[1], x()];
                for k in &r {
                    t.extend([infixes[*k], x()]);
                }
                judge(&t, l);
                if r.len() + 2 < top {
                    rest.extend((0..infixes.len()).map(|k| [r.clone(), vec![k]].concat()));
                }
            }
            // one operator before, one behind, or two of them
            let mut extra: Vec<(usize, &Tok)> = vec![];
            for at in 0..3 {
                extra.extend(before.iter().map(|t| (2 * at, *t)));
                extra.extend(behind.iter().map(|t| (2 * at + 1, *t)));
            }
            for (i, e) in extra.iter().enumerate() {
                for f in extra[i..].iter().map(Some).chain([None]) {
                    let mut t: Vec<&Tok> = vec![];
                    let at = |slot: usize| [Some(e), f].into_iter().flatten().filter(move |o| o.0 == slot).map(|o| o.1);
                    for k in 0..3 {
                        t.extend(at(2 * k));
                        t.push(x());
                        t.extend(at(2 * k + 1));
                        if k < 2 {
                            t.push(ops[k]);
                        }
                    }
                    judge(&t, l);
                    if l.failed() {
                        return;
                    }
                }
            }
        },
    );
}
pub fn c25(ctx: &Ctx) {
    let all = app_tokens();
    grouping(ctx, "all expressions over every token", &all, ctx.pick(4, 5));
    grouping(ctx, "operators of every strength", &of("1 + * = , ! lim"), ctx.pick(9, 10));
    grouping(ctx, "brackets and calls", &of("x 1 ( ) + - * !"), ctx.pick(8, 9));
    grouping(ctx, "scripts and postfix operators", &of("x sup[1] sub[] ^ ! - * ∑ ("), ctx.pick(7, 8));
    grouping(ctx, "whole tokens", &of("lim limsup liminf 20 3.14 y1 ab \"\" + frac[|]"), ctx.pick(6, 7));
    grouping(ctx, "relations and logic", &of("x = > , ∧ ¬ + *"), ctx.pick(10, 11));
    ladders(ctx);
    // words and numbers: every string of letters and digits is one whole token
    let pieces = ["x", "l", "i", "m", "1", "0", ".", "é", "s", "u", "p", "n", "f"];
    let max = ctx.pick(5, 6);
    let cases: Vec<Vec<usize>> = (0..3).flat_map(|n| starts(pieces.len(), n)).collect();
    ctx.run(
        &format!("every word and number of up to {max} characters"),
        &cases,
        |c| json!(c.iter().map(|k| pieces[*k]).collect::<Vec<_>>()),
        make_parser,
        |p, c, l| {
            let top = if c.len() < 2 { c.len() } else { max };
            extend(&mut c.clone(), pieces.len(), top, &mut |s| {
                l.states += 1;
                let row: Row = s.iter().map(|k| sym(pieces[*k])).collect();
                let text: String = s.iter().map(|k| pieces[*k]).collect();
                let number = |t: &str| {
                    let parts: Vec<&str> = t.split('.').collect();
                    parts.len() <= 2 && parts.iter().all(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_digit()))
                };
                let name = |t: &str| t.chars().next().map(|c| c.is_alphabetic()).unwrap_or(false) && t.chars().all(|c| c.is_alphanumeric());
                let want = if number(&text) {
                    T::Leaf("Arithmetic::Number".into(), text.clone())
                } else if name(&text) && !text.starts_with("lim") {
                    T::Leaf("Core::Variable".into(), text.clone())
                } else {
                    return true;
                };
                l.traces += 1;
                l.transitions += 1;
                match guard(|| shape(&parse(p, &nodes_to_real(&row)))) {
                    Err(e) => l.fail("tokens", format!("{text}: {e}")),
                    Ok(got) if got != want => l.fail("tokens", format!("{text} reads {got:?}, should be {want:?}")),
                    Ok(_) => {}
                }
                !l.failed()
            });
        },
    );
    // words in capital letters are not the words the rules know
    let mut words: Vec<String> = all.iter().map(|t| t.text.to_string()).filter(|t| t.chars().all(|c| c.is_ascii_alphabetic())).collect();
    words.extend(app_rules().iter().map(|r| r.parser.clone()).filter(|t| t.chars().all(|c| c.is_ascii_alphabetic())));
    words.extend(["sin", "log", "pi", "infinity", "true", "error", "nothing"].map(String::from));
    words.sort();
    words.dedup();
    ctx.run("every word the application knows, in small and capital letters", &words, |w| json!(w), make_parser, |p, w, l| {
        let chars: Vec<char> = w.chars().collect();
        for caps in 1..1u32 << chars.len().min(10) {
            let text: String = chars.iter().enumerate().map(|(i, c)| if caps >> i & 1 == 1 { c.to_ascii_uppercase() } else { *c }).collect();
            if text.starts_with("lim") {
                continue;
            }
            l.states += 1;
            l.traces += 1;
            l.transitions += 1;
            let want = T::Leaf("Core::Variable".into(), text.clone());
            match guard(|| shape(&parse(p, &nodes_to_real(&text.chars().map(|c| sym(&c.to_string())).collect::<Row>())))) {
                Err(e) => l.fail("tokens", format!("{text}: {e}")),
                Ok(got) if got != want => l.fail("tokens", format!("{text} reads {got:?}, should be {want:?}")),
                Ok(_) => {}
            }
        }
    });
    // strings: quotes, escapes, anything inside
    let pieces = ["\"", "\\", "a", "(", " ", "+"];
    let max = ctx.pick(7, 8);
    let cases: Vec<Vec<usize>> = starts(pieces.len(), 2);
    ctx.run(
        &format!("every string literal of up to {max} characters"),
        &cases,
        |c| json!(c.iter().map(|k| pieces[*k]).collect::<Vec<_>>()),
        make_parser,
        |p, c, l| {
            if c[0] != 0 {
                return;
            }
            extend(&mut c.clone(), pieces.len(), max, &mut |s| {
                l.states += 1;
                // the first unescaped quote after the opening one must be the last character
                let mut i = 1;
                let mut closed = None;
                while i < s.len() {
                    match pieces[s[i]] {
                        "\\" => i += 2,
                        "\"" => {
                            closed = Some(i);
                            break;
                        }
                        _ => i += 1,
                    }
                }
                match closed {
                    None => return true,
                    Some(i) if i + 1 < s.len() => return false,
                    _ => {}
                }
                let row: Row = s.iter().map(|k| sym(pieces[*k])).collect();
                let text: String = s.iter().map(|k| pieces[*k]).collect();
                l.traces += 1;
                l.transitions += 1;
                let want = T::Leaf("String::String".into(), text.clone());
                match guard(|| shape(&parse(p, &nodes_to_real(&row)))) {
                    Err(e) => l.fail("tokens", format!("{text}: {e}")),
                    Ok(got) if got != want => l.fail("tokens", format!("{text} reads {got:?}, should be {want:?}")),
                    Ok(_) => {}
                }
                !l.failed()
            });
        },
    );
    // the letters of some alphabets, one by one
    let letter = |c: char| {
        c.is_alphabetic()
            && matches!(c as u32, 0x41..=0x5A | 0x61..=0x7A | 0xC0..=0x24F | 0x386..=0x3E1 | 0x400..=0x481 | 0x48A..=0x4FF | 0x5D0..=0x5EA
                | 0x2102 | 0x210D | 0x2115 | 0x2119..=0x211D | 0x2124 | 0x2135..=0x2138 | 0x4E00..=0x9FA5 | 0x1D400..=0x1D7CB)
    };
    let blocks: Vec<u32> = (0..0x110).collect();
    ctx.run("every letter of some alphabets, and every digit, alone and inside of a word", &blocks, |b| json!(format!("U+{:04X}..", b * 0x100)), make_parser, |p, b, l| {
        for c in (b * 0x100..(b + 1) * 0x100).filter_map(char::from_u32) {
            let one = |text: &[&str]| -> Result<T, PanicInfo> { guard(|| shape(&parse(p, &nodes_to_real(&text.iter().map(|t| sym(t)).collect::<Row>())))) };
            l.states += 1;
            let t = c.to_string();
            let mut cases: Vec<(Vec<&str>, T)> = vec![];
            if c.is_ascii_digit() {
                cases.push((vec![&t], T::Leaf("Arithmetic::Number".into(), t.clone())));
                cases.push((vec![&t, ".", &t], T::Leaf("Arithmetic::Number".into(), format!("{t}.{t}"))));
            }
            if letter(c) {
                cases.push((vec![&t], T::Leaf("Core::Variable".into(), t.clone())));
                cases.push((vec![&t, "1"], T::Leaf("Core::Variable".into(), format!("{t}1"))));
            }
            if letter(c) || c.is_ascii_digit() {
                cases.push((vec!["x", &t, "y"], T::Leaf("Core::Variable".into(), format!("x{t}y"))));
            }
            for (text, want) in cases {
                l.transitions += 1;
                l.traces += 1;
                match one(&text) {
                    Err(e) => l.fail("tokens", format!("{text:?}: {e}")),
                    Ok(got) if got != want => l.fail("tokens", format!("{text:?} reads {got:?}, should be {want:?}")),
                    Ok(_) => {}
                }
            }
        }
    });
    // long tokens
    let lengths: Vec<usize> = (1..=ctx.pick(80, 300)).collect();
    ctx.run("names, numbers and strings of every length", &lengths, |n| json!(n), make_parser, |p, &n, l| {
        l.states += 1;
        let pick = |set: &str, n: usize, from: usize| -> String { set.chars().cycle().skip(from).take(n).collect() };
        let mut cases: Vec<(String, T)> = vec![];
        for from in 0..5 {
            let digits = pick("3141592650", n, from);
            cases.push((digits.clone(), T::Leaf("Arithmetic::Number".into(), digits.clone())));
            for (whole, part) in [(n, 1), (1, n), (n, n)] {
                let text = format!("{}.{}", pick("3141592650", whole, from), pick("90817", part, from));
                cases.push((text.clone(), T::Leaf("Arithmetic::Number".into(), text)));
            }
            let name = pick("alpha", n, from);
            cases.push((name.clone(), T::Leaf("Core::Variable".into(), name)));
            let name = format!("x{}", pick("1a2b34", n, from));
            cases.push((name.clone(), T::Leaf("Core::Variable".into(), name)));
            let text = format!("\"{}\"", pick("a+( 1", n, from));
            cases.push((text.clone(), T::Leaf("String::String".into(), text)));
            let text = format!("\"{}\"", "\\\"".repeat(n));
            cases.push((text.clone(), T::Leaf("String::String".into(), text)));
        }
        for (text, want) in cases {
            l.transitions += 1;
            l.traces += 1;
            let row: Row = text.chars().map(|c| sym(&c.to_string())).collect();
            match guard(|| shape(&parse(p, &nodes_to_real(&row)))) {
                Err(e) => l.fail("tokens", format!("{text}: {e}")),
                Ok(got) if got != want => l.fail("tokens", format!("{text} reads {got:?}, should be {want:?}")),
                Ok(_) => {}
            }
        }
    });
    // long expressions: one to three tokens over and over
    let few = of("x 1 + * - ! ( ) , = sup[1] lim");
    let max = ctx.pick(24, 60);
    let cases: Vec<Vec<usize>> = (1..=3).flat_map(|n| starts(few.len(), n)).collect();
    ctx.run(&format!("one to three tokens over and over, up to {max} tokens"), &cases, |c| json!(show(&row_of(&c.iter().map(|k| &few[*k]).collect::<Vec<_>>()))), make_parser, |p, c, l| {
        for n in (10..=max).filter(|n| l_step(*n)) {
            // as they are, and closed as far as brackets are open
            let mut t: Vec<&Tok> = (0..n).map(|i| &few[c[i % c.len()]]).collect();
            let (opens, closes) = (t.iter().filter(|t| matches!(t.role, Role::Open)).count(), t.iter().filter(|t| matches!(t.role, Role::Close)).count());
            if opens > closes {
                if matches!(t[n - 1].role, Role::Open | Role::Prefix(..) | Role::Infix(..)) {
                    t.push(&few[0]);
                }
                t.extend((closes..opens).map(|_| few.iter().find(|t| matches!(t.role, Role::Close)).unwrap()));
            }
            if t.windows(2).any(|w| merges(w[0], w[1])) || !viable(&t) {
                continue;
            }
            l.states += 1;
            if let Some(want) = reference(&t, Some(100)) {
                l.traces += 1;
                judge_grouping(p, &t, &want, l);
            }
        }
    });
    // rule collections with every relation between the strengths
    let powers = [90u16, 100, 110, 120];
    let mut cases: Vec<(u16, bool, u16, bool, u16, u16)> = vec![];
    for a in powers {
        for ar in [false, true] {
            for b in powers {
                for br in [false, true] {
                    for pre in [95u16, 105, 115] {
                        for post in [97u16, 107, 117] {
                            // two operators of equal strength associate to the same side
                            if (a != b || ar == br) && (ctx.thorough() || pre != 105 || post != 107) {
                                cases.push((a, ar, b, br, pre, post));
                            }
                        }
                    }
                }
            }
        }
    }
    let max = ctx.pick(6, 7);
    ctx.run(
        &format!("custom operators of every relative strength, up to {max} tokens"),
        &cases,
        |c| json!([c.0, c.1, c.2, c.3, c.4, c.5]),
        || (),
        |_, (a, ar, b, br, pre, post), l| {
            let mut m = ParseModules::new();
            let built_in = Rc::new(BuiltInRules::new(&mut m));
            let core = Rc::new(CoreRules::new(&mut m, &built_in));
            let mut rule = |n: &str| m.with_rule_name(PathIdentifier::new(vec!["Custom".into(), n.into()]));
            let jop = |c: char| parser::make_parser::just_operator_parser(c);
            let custom = Custom {
                rules: vec![
                    if *ar { right_infix_rule(rule("A"), *a, jop('⊕')) } else { left_infix_rule(rule("A"), *a, jop('⊕')) },
                    if *br { right_infix_rule(rule("B"), *b, jop('⊗')) } else { left_infix_rule(rule("B"), *b, jop('⊗')) },
                    prefix_rule(rule("Pre"), *pre, jop('§')),
                    postfix_rule(rule("Post"), *post, jop('°')),
                ],
            };
            let parser = MathParser::new(ParseModuleCollection::new(built_in.clone(), vec![built_in, core, Rc::new(custom)]));
            let p: P = (parser, m);
            let make = |s: &'static str, n: &str, pw: u16, right: bool| if right { infix_right(s, n, pw) } else { infix(s, n, pw) };
            let tokens = [variable("x"), make("⊕", "Custom::A", *a, *ar), make("⊗", "Custom::B", *b, *br), prefix("§", "Custom::Pre", *pre), postfix("°", "Custom::Post", *post), open(), close()];
            extend(&mut vec![], tokens.len(), max, &mut |s| {
                let t: Vec<&Tok> = s.iter().map(|k| &tokens[*k]).collect();
                if l.failed() || t.windows(2).any(|w| merges(w[0], w[1])) || !viable(&t) {
                    return false;
                }
                // without the function module brackets behind an operand are a second operand
                if t.windows(2).any(|w| w[1].role == Role::Open && !matches!(w[0].role, Role::Open | Role::Prefix(..) | Role::Infix(..))) {
                    return false;
                }
                l.states += 1;
                if let Some(want) = reference(&t, Some(100)) {
                    l.traces += 1;
                    judge_grouping(&p, &t, &want, l);
                }
                true
            });
        },
    );
}

// ---------------------------------------------------------------- C26

/// Formulas that are easily taken for one another: the same text in other symbols, the same ends around other
/// middles, the same cells in other containers, and differences deep inside.
fn look_alikes() -> Vec<Row> {
    let mut out: Vec<Row> = vec![];
    for text in ["12", "lim", "sin", "e\u{301}", "x+1", "f(x)", "x y", "\"a\"", "1.5", "a=b", "\r\n", "∑!"] {
        // every way to cut the text into symbols
        let chars: Vec<char> = text.chars().collect();
        for cuts in 0u32..1 << (chars.len() - 1) {
            let mut row: Row = vec![];
            let mut s = String::new();
            for (k, c) in chars.iter().enumerate() {
                s.push(*c);
                if k + 1 == chars.len() || cuts >> k & 1 == 1 {
                    row.push(sym(&std::mem::take(&mut s)));
                }
            }
            out.push(row);
        }
    }
    // what the parts look like when they are printed
    for text in ["(frac [1|2])", "[1]", "(sup [1])", "Fraction", "'1'", "Symbol(\"1\")", "(table 1x1 [1])"] {
        out.push(vec![sym(text)]);
        out.push(text.chars().map(|c| sym(&c.to_string())).collect());
    }
    let middles: Vec<Row> = ["1", "x", "+", "!", " ", "?", "", "12", "1+"].iter().map(|t| t.chars().map(|c| sym(&c.to_string())).collect()).collect();
    for m in &middles {
        let mut row = vec![sym("1"), sym("+")];
        row.extend(m.iter().cloned());
        row.extend([sym("+"), sym("1")]);
        out.push(row);
        for (v, w, count) in [(V::Frac, 1, 2), (V::Root, 2, 2), (V::Sup, 1, 1), (V::Sub, 1, 1), (V::Table, 1, 2), (V::Table, 2, 2), (V::Table, 1, 1)] {
            for cell in 0..count {
                let mut cells = vec![vec![]; count];
                cells[cell] = m.clone();
                let inner = N::C(v, w, cells);
                out.push(vec![sym("x"), inner.clone()]);
                out.push(vec![sym("x"), N::C(V::Frac, 1, vec![vec![], vec![N::C(V::Root, 2, vec![vec![], vec![inner]])]])]);
            }
        }
    }
    out
}

pub fn c26(ctx: &Ctx) {
    let all = every_token();
    let mut rows: Vec<Row> = vec![vec![]];
    let few = of("1 x ( ) + ! ␣ ? frac[1|x] sub[] lim \"");
    for n in 1..=ctx.pick(2, 3) {
        for s in starts(few.len(), n) {
            rows.push(row_of(&s.iter().map(|k| &few[*k]).collect::<Vec<_>>()));
        }
    }
    for t in &all {
        rows.push(t.nodes.clone());
    }
    rows.extend(families(4, 3, 2));
    rows.extend(look_alikes());
    rows.sort_by_key(|r| format!("{r:?}"));
    rows.dedup();
    // what a fresh parser that never saw anything else says
    let fresh: Vec<String> = {
        rows.iter()
            .map(|r| {
                let p = make_parser();
                let real = nodes_to_real(r);
                guard(|| format!("{:?}", parse(&p, &real))).unwrap_or_else(|e| e.msg)
            })
            .collect()
    };
    let judge = |p: &P, seq: &[usize], l: &mut Local| {
        for (i, k) in seq.iter().enumerate() {
            l.transitions += 1;
            let real = nodes_to_real(&rows[*k]);
            let got = guard(|| format!("{:?}", parse(p, &real))).unwrap_or_else(|e| e.msg);
            if got != fresh[*k] {
                let seen: Vec<String> = seq[..i].iter().map(|k| show(&rows[*k])).collect();
                l.fail("impure", format!("{} parses to {got} after {seen:?}, a fresh parser says {}", show(&rows[*k]), fresh[*k]));
                return;
            }
        }
    };
    let cases: Vec<usize> = (0..rows.len()).collect();
    let every = ctx.pick(1, 4);
    ctx.run(
        "every pair of formulas, each parsed before and after the other",
        &cases,
        |k| row_json(&rows[*k]),
        || (),
        |_, a, l| {
            l.traces += 1;
            // one parser per first formula: its history grows with every second formula
            let p = make_parser();
            for b in 0..rows.len() {
                l.states += 1;
                judge(&p, &[*a, b, *a], l);
                if l.failed() {
                    return;
                }
            }
            // and parsers whose whole history is the pair
            for b in 0..rows.len() {
                if (a + b) % every == 0 {
                    l.states += 1;
                    let p = make_parser();
                    judge(&p, &[*a, *a, b, *a, b, b], l);
                    if l.failed() {
                        return;
                    }
                }
            }
        },
    );
}

// ---------------------------------------------------------------- C27

pub fn c27(ctx: &Ctx) {
    // where the row stands: (before, container, cell, other cells, after)
    let kinds: [(V, usize, usize); 6] = [(V::Frac, 1, 2), (V::Root, 2, 2), (V::Sup, 1, 1), (V::Sub, 1, 1), (V::Table, 1, 1), (V::Table, 2, 4)];
    let contexts: Vec<(Row, Row)> = {
        let r = |t: &str| -> Row { t.chars().map(|c| sym(&c.to_string())).collect() };
        let mut c = vec![];
        for b in ["", "x", "1+", "2*", "-", "(", "∑", "a!", "?", " ", "f(x)"] {
            for a in ["", "!", "+1", "*x", ")", "(1)", " ", "?", "2"] {
                c.push((r(b), r(a)));
            }
        }
        c
    };
    let fillers: [Row; 3] = [vec![], vec![sym("y")], vec![sym("("), sym("+")]];
    let judge = |p: &P, inner: &Row, stride: usize, l: &mut Local| {
        let alone = match guard(|| parse(p, &nodes_to_real(inner))) {
            Err(e) => return l.fail("cell", format!("{}: {e}", show(inner))),
            Ok(t) => t,
        };
        for (v, w, count) in kinds {
            for cell in 0..count {
                for (ci, (before, after)) in contexts.iter().enumerate().filter(|(ci, _)| (ci + inner.len()) % stride == 0) {
                    let filler = &fillers[ci % 3];
                    let build = |inner: &Row| {
                        let mut cells = vec![filler.clone(); count];
                        cells[cell] = inner.clone();
                        let mut row = before.clone();
                        row.push(N::C(v, w, cells));
                        row.extend(after.iter().cloned());
                        row
                    };
                    l.transitions += 1;
                    let r = guard(|| (parse(p, &nodes_to_real(&build(inner))), parse(p, &nodes_to_real(&build(&vec![])))));
                    let (tree, empty) = match r {
                        Err(e) => return l.fail("cell", format!("{} in cell {cell} of {v:?}: {e}", show(inner))),
                        Ok(t) => t,
                    };
                    let mut found = vec![];
                    let outer = skeleton(&tree, before.len(), &mut found);
                    let outer_empty = skeleton(&empty, before.len(), &mut vec![]);
                    if found.len() != 1 || found[0].len() != count {
                        return l.fail("cell", format!("{}: {} nodes with cells stand for the container", show(&build(inner)), found.len()));
                    }
                    if found[0][cell] != alone {
                        return l.fail("cell", format!("{} in cell {cell} of {v:?} reads {:?}, alone it reads {:?}", show(inner), shape(&found[0][cell]), shape(&alone)));
                    }
                    if outer != outer_empty {
                        return l.fail("cell", format!("{}: the expression around the container depends on its content: {outer:?} or {outer_empty:?}", show(&build(inner))));
                    }
                }
            }
        }
    };
    /// The tree of the outer row, with the cells of the container at `at` taken out.
    fn skeleton(n: &Sn, at: usize, found: &mut Vec<Vec<Sn>>) -> Sn {
        let kids = match &n.kids {
            Kids::Rows(w, c) if n.start == at => {
                found.push(c.clone());
                Kids::Rows(*w, vec![])
            }
            Kids::Kids(c) => Kids::Kids(c.iter().map(|c| skeleton(c, at, found)).collect()),
            k => k.clone(),
        };
        Sn { kids, ..n.clone() }
    }
    // cells with far more in them, or far deeper
    let mut cases: Vec<Row> = large();
    for n in [15usize, 30, 60] {
        for text in ["1+", "x*", "-", "(", "f(", "x!", "a ", "12", "+", "lim", "x,"] {
            // (many brackets that are never closed are a finding of C23)
            let mut row: Row = text.chars().cycle().take(n).map(|c| sym(&c.to_string())).collect();
            row.extend(text.chars().cycle().take(n).filter(|c| *c == '(').map(|_| sym(")")));
            cases.push(row);
        }
    }
    let stride = ctx.pick(9, 1);
    ctx.run("cells with far more in them, or far deeper", &cases, row_json, make_parser, |p, inner, l| {
        l.states += 1;
        l.traces += 1;
        judge(p, inner, stride, l);
    });
    // every shape of table with a different row in each cell, by itself and inside of every cell of another container
    let distinct = |k: usize| -> Row {
        let r = |t: &str| -> Row { t.chars().map(|c| sym(&c.to_string())).collect() };
        match k % 13 {
            0 => r(&format!("{k}")),
            1 => r(&format!("{k}=x>1")),
            2 => vec![],
            3 => r(&format!("-{k}!")),
            4 => r(&format!("f({k}")),
            5 => r(&format!("{k},x,")),
            6 => r(&format!("lim x{k}")),
            7 => r(&format!("\"a ({k}\"")),
            8 => r(&format!(" {k} ?")),
            9 => r(&format!("({k}) ∧ ⊤*2")),
            10 => vec![sym("∑"), N::C(V::Sub, 1, vec![r(&format!("{k}"))]), sym("x")],
            11 => r(&format!("{k}+x*y")),
            _ => vec![sym("x"), N::C(V::Sup, 1, vec![r(&format!("{k}"))])],
        }
    };
    let side = ctx.pick(5, 7);
    let mut shapes: Vec<(V, usize, usize)> = vec![(V::Frac, 1, 2), (V::Root, 2, 1), (V::Sup, 1, 1), (V::Sub, 1, 1)];
    for w in 1..=side {
        for h in 1..=side {
            shapes.push((V::Table, w, h));
        }
    }
    let pairs: Vec<(usize, Option<(usize, usize)>, usize)> = (0..shapes.len())
        .flat_map(|i| {
            let outer: Vec<(usize, usize)> = shapes
                .iter()
                .enumerate()
                .filter(|(_, (_, w, h))| w * h <= ctx.pick(6, 12))
                .flat_map(|(o, (_, w, h))| (0..w * h).map(move |c| (o, c)))
                .collect();
            let other = ctx.pick(2, 6);
            (0..13).map(move |s| (i, None, s)).chain(outer.into_iter().flat_map(move |o| (0..other).map(move |s| (i, Some(o), s * 7 + i))))
        })
        .collect();
    ctx.run("every shape of container with different cells, alone and inside of every cell of the others", &pairs, |c| json!(format!("{c:?}")), make_parser, |p, (i, outer, from), l| {
        let fill = |(v, w, h): (V, usize, usize), from: usize| N::C(v, w, (0..w * h).map(|k| distinct(from + k)).collect());
        let inner = fill(shapes[*i], *from);
        let row: Row = match outer {
            None => vec![sym("x"), inner],
            Some((o, cell)) => {
                let mut c = fill(shapes[*o], from + 7);
                if let N::C(_, _, cells) = &mut c {
                    cells[*cell].push(inner);
                }
                vec![sym("1"), sym("+"), c, sym("x")]
            }
        };
        // every container of the tree against its cells parsed alone
        fn check(p: &P, row: &Row, tree: &Sn, l: &mut Local) -> Result<(), String> {
            for (at, n) in row.iter().enumerate() {
                if let N::C(v, w, cells) = n {
                    let mut found = vec![];
                    collect(tree, at, &mut found);
                    if found.len() != 1 {
                        return Err(format!("{} nodes with cells stand for the {v:?} at {at}", found.len()));
                    }
                    let (fw, fc) = found.remove(0);
                    if fw != *w || fc.len() != cells.len() {
                        return Err(format!("the {v:?} of {} cells, {w} wide, has {} cells, {fw} wide", cells.len(), fc.len()));
                    }
                    for (k, (cell, got)) in cells.iter().zip(&fc).enumerate() {
                        l.transitions += 1;
                        let alone = guard(|| parse(p, &nodes_to_real(cell))).map_err(|e| e.to_string())?;
                        if *got != alone {
                            return Err(format!("cell {k} of the {v:?} ({}) reads {:?}, alone it reads {:?}", show(cell), shape(got), shape(&alone)));
                        }
                        check(p, cell, got, l)?;
                    }
                }
            }
            Ok(())
        }
        fn collect(n: &Sn, at: usize, found: &mut Vec<(usize, Vec<Sn>)>) {
            match &n.kids {
                Kids::Rows(w, c) if n.start == at => found.push((*w, c.clone())),
                Kids::Kids(c) => c.iter().for_each(|c| collect(c, at, found)),
                _ => {}
            }
        }
        l.states += 1;
        l.traces += 1;
        let r = match guard(|| parse(p, &nodes_to_real(&row))) {
            Err(e) => Err(e.to_string()),
            Ok(tree) => check(p, &row, &tree, l),
        };
        if let Err(m) = r {
            l.fail("cell", format!("{}: {m}", show(&row)));
        }
    });
    let all = every_token();
    sequences(ctx, "every row in every cell of every container, 99 surroundings", &all, ctx.pick(2, 3), |p, t, l| {
        l.states += 1;
        l.traces += 1;
        judge(p, &row_of(t), 1, l);
        true
    });
    let few = of("1 x ( ) + ! ␣ ?");
    let stride = ctx.pick(4, 2);
    sequences(ctx, &format!("longer rows, every {stride}th surrounding"), &few, ctx.pick(4, 5), |p, t, l| {
        if t.len() > 2 {
            l.states += 1;
            l.traces += 1;
            judge(p, &row_of(t), stride, l);
        }
        true
    });
}

// ---------------------------------------------------------------- C28

pub fn c28(ctx: &Ctx) {
    ctx.assume("expressions that contain a symbol no rule knows are not expressions; spaces inside of them may be reported as unknown, too");
    let run = |phase: &str, tokens: &[Tok], max: usize, full: bool, many: usize| {
        sequences(ctx, phase, tokens, max, |p, t, l| {
            if t.is_empty() {
                return true;
            }
            if t.windows(2).any(|w| merges(w[0], w[1])) {
                return false;
            }
            let row = row_of(t);
            let plain = match guard(|| shape(&parse(p, &nodes_to_real(&row)))) {
                Err(e) => {
                    l.fail("spaces", format!("{}: {e}", texts(t)));
                    return false;
                }
                Ok(t) => t,
            };
            l.states += 1;
            if mentions(&plain, "Error::UnknownToken") {
                return true;
            }
            l.traces += 1;
            let gaps = t.len() + 1;
            let choices: Vec<Vec<usize>> = if many > 0 {
                // many spaces in one gap, or in all of them
                let one = (0..gaps).flat_map(|at| (3..=many).map(move |n| (0..gaps).map(|g| if g == at { n } else { 0 }).collect()));
                one.chain((3..=many).map(|n| vec![n; gaps])).collect()
            } else if full {
                (1..3usize.pow(gaps as u32)).map(|mut k| (0..gaps).map(|_| { let d = k % 3; k /= 3; d }).collect()).collect()
            } else {
                (1..1usize << gaps).map(|k| (0..gaps).map(|g| k >> g & 1).collect()).collect()
            };
            for gap in choices {
                let mut spaced: Row = vec![];
                for (i, n) in gap.iter().enumerate() {
                    spaced.extend((0..*n).map(|_| sym(" ")));
                    if i < t.len() {
                        spaced.extend(t[i].nodes.iter().cloned());
                    }
                }
                l.transitions += 1;
                match guard(|| shape(&parse(p, &nodes_to_real(&spaced)))) {
                    Err(e) => l.fail("spaces", format!("{}: {e}", show(&spaced))),
                    Ok(got) => {
                        if without_spaces(&got) != plain {
                            l.fail("spaces", format!("{} reads {plain:?}, with spaces {:?} it reads {got:?}", texts(t), gap));
                        }
                    }
                }
                if l.failed() {
                    return false;
                }
            }
            true
        });
    };
    let all = app_tokens();
    run("every expression, up to two spaces in every gap", &all, ctx.pick(3, 3), true, 0);
    run("longer expressions, a space in every subset of the gaps", &of("1 x ( ) + ! - sub[] lim"), ctx.pick(5, 6), false, 0);
    run("many spaces in one gap or in all of them", &all, ctx.pick(2, 3), false, 17);
    run("many spaces in longer expressions", &of("1 x ( ) + ! - sub[] lim"), ctx.pick(4, 5), false, 12);
    if ctx.thorough() {
        run("every expression of four tokens", &all, 4, false, 0);
    }
}

// ---------------------------------------------------------------- C29

fn subset_parser(mask: usize) -> (P, Vec<Rc<dyn ParseModule>>) {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let mut list: Vec<Rc<dyn ParseModule>> = vec![built_in.clone()];
    for k in 0..8 {
        if mask >> k & 1 == 1 {
            list.push(match k {
                0 => Rc::new(CoreRules::new(&mut m, &built_in)),
                1 => Rc::new(ArithmeticRules::new(&mut m)),
                2 => Rc::new(CalculusRules::new(&mut m)),
                3 => Rc::new(CollectionsRules::new(&mut m)),
                4 => Rc::new(ComparisonRules::new(&mut m)),
                5 => Rc::new(FunctionRules::new(&mut m, &built_in)),
                6 => Rc::new(LogicRules::new(&mut m)),
                _ => Rc::new(StringRules::new(&mut m)),
            });
        }
    }
    ((MathParser::new(ParseModuleCollection::new(built_in, list.clone())), m), list)
}
/// (every registered name with its identity)
fn name_table(m: &ParseModules) -> Result<Vec<(String, SyntaxNodeNameId)>, String> {
    let map = m.get_rule_name_map();
    let mut out = vec![];
    for k in 0..2_000u32 {
        let id = SyntaxNodeNameId::new(k);
        if let Some(path) = map.get_reverse(id) {
            match map.get(path) {
                Some(back) if back == id => {}
                other => return Err(format!("identity {id:?} is named {path}, which has the identity {other:?}")),
            }
            if out.iter().any(|(n, _)| *n == path.to_string()) {
                return Err(format!("{path} has two identities"));
            }
            out.push((path.to_string(), id));
        }
    }
    Ok(out)
}
/// What the printed form of a syntax tree is, from the names.
fn print(n: &Sn) -> String {
    let mut s = format!("({}", n.name);
    match &n.kids {
        Kids::Rows(w, c) => {
            s += &format!(" {}x{}", w, c.len() / w);
            for c in c {
                s += &format!(" {}", print(c));
            }
        }
        Kids::Kids(c) => {
            for c in c {
                s += &format!(" {}", print(c));
            }
        }
        Kids::Leaf(t, _) => s += &format!(" \"{}\"", t.replace('\\', "\\\\").replace('"', "\\\"")),
    }
    if !n.value.is_empty() {
        s.push(' ');
        for b in &n.value {
            s += &format!("{b:02x}");
        }
    }
    s + ")"
}
/// All names in a tree
fn used(n: &Sn, out: &mut Vec<String>) {
    if !out.contains(&n.name) {
        out.push(n.name.clone());
    }
    match &n.kids {
        Kids::Rows(_, c) | Kids::Kids(c) => c.iter().for_each(|c| used(c, out)),
        Kids::Leaf(..) => {}
    }
}
fn judge_names(p: &P, row: &Row, known: &[String], l: &mut Local) {
    l.states += 1;
    l.transitions += 1;
    let real = nodes_to_real(row);
    let r = guard(|| {
        let tree = p.0.parse(&real);
        (view(&tree, names(&p.1)), tree.with_display(names(&p.1)).to_string())
    });
    match r {
        Err(e) => l.fail("names", format!("{}: {e}", show(row))),
        Ok((t, shown)) => {
            let mut u = vec![];
            used(&t, &mut u);
            if let Some(n) = u.iter().find(|n| !known.contains(n)) {
                return l.fail("names", format!("{}: a node is named {n}, which no rule of these modules is", show(row)));
            }
            if shown != print(&t) {
                l.fail("printed", format!("{}: printed as {shown}, should be {}", show(row), print(&t)));
            }
        }
    }
}
/// The names that the rules of a module list stand for.
fn rule_names(m: &ParseModules, list: &[Rc<dyn ParseModule>]) -> Result<Vec<String>, String> {
    let mut out: Vec<String> = vec![];
    for module in list {
        for r in module.get_rules() {
            let Some(id) = r.rule_name() else { return Err(format!("a rule of {} has no name", module.get_module_name())) };
            match m.get_rule_name_map().get_reverse(*id) {
                None => return Err(format!("a rule of {} has the unregistered identity {id:?}", module.get_module_name())),
                Some(n) => out.push(n.to_string()),
            }
        }
    }
    out.sort();
    out.dedup();
    Ok(out)
}
/// The rules the documentation lists for every module, in the order of `subset_parser`.
fn documented(mask: usize) -> Vec<&'static str> {
    let per: [&str; 8] = [
        "Core::Variable Core::RoundBrackets",
        "Arithmetic::Number Arithmetic::Add Arithmetic::Subtract Arithmetic::Multiply Arithmetic::Divide Arithmetic::Factorial Arithmetic::Exponent",
        "Calculus::Infinity Calculus::Lim Calculus::LimSup Calculus::LimInf Calculus::Sum Calculus::Integral",
        "Collections::Tuple",
        "Comparison::Equals Comparison::GreaterThan Comparison::LessThan Comparison::GreaterThanOrEquals Comparison::LessThanOrEquals",
        "Function::FunctionApplication",
        "Logic::And Logic::Or Logic::Not Logic::Equivalent Logic::Implies Logic::True Logic::False",
        "String::String",
    ];
    (0..8).filter(|k| mask >> k & 1 == 1).flat_map(|k| per[k].split(' ')).collect()
}

pub fn c29(ctx: &Ctx) {
    ctx.assume("variants of one rule (a sign and a binary operator, empty and filled brackets) share the rule's name");
    let all = every_token();
    let cases: Vec<usize> = (0..256).collect();
    let max = ctx.pick(2, 3);
    ctx.run(
        &format!("every subset of the eight modules, every sequence of up to {max} tokens"),
        &cases,
        |m| json!(m),
        || (),
        |_, mask, l| {
            l.traces += 1;
            let made = guard(|| subset_parser(*mask));
            let (p, list) = match made {
                Err(e) => return l.fail("modules", format!("the modules {mask:08b} cannot be put together: {e}")),
                Ok(x) => x,
            };
            let table = match name_table(&p.1) {
                Err(e) => return l.fail("table", e),
                Ok(t) => t,
            };
            let known = match rule_names(&p.1, &list) {
                Err(e) => return l.fail("table", e),
                Ok(k) => k,
            };
            for n in documented(*mask) {
                l.states += 1;
                if !known.iter().any(|k| k == n) {
                    return l.fail("table", format!("modules {mask:08b}: no rule is named {n}"));
                }
            }
            for k in &known {
                if !table.iter().any(|(n, _)| n == k) {
                    return l.fail("table", format!("modules {mask:08b}: the rule {k} has no identity"));
                }
            }
            // a name that is registered again keeps its identity and takes nobody else's
            let mut m = p.1;
            for (n, id) in &table {
                let path = PathIdentifier::new(n.split("::").map(|s| s.to_string()).collect());
                if m.with_rule_name(path) != *id {
                    return l.fail("table", format!("registering {n} again changes its identity"));
                }
            }
            let fresh = m.with_rule_name(PathIdentifier::new(vec!["Fresh".into(), "Name".into()]));
            if table.iter().any(|(_, id)| *id == fresh) {
                return l.fail("table", format!("modules {mask:08b}: a new name gets an identity in use: {fresh:?}"));
            }
            match name_table(&m) {
                Ok(t) if t.len() == table.len() + 1 => {}
                Ok(t) => return l.fail("table", format!("after registering one more name there are {} instead of {}", t.len(), table.len() + 1)),
                Err(e) => return l.fail("table", e),
            }
            let p = (p.0, m);
            extend(&mut vec![], all.len(), max, &mut |s| {
                let t: Vec<&Tok> = s.iter().map(|k| &all[*k]).collect();
                judge_names(&p, &row_of(&t), &known, l);
                !l.failed()
            });
        },
    );
    let known = {
        let (m, _, list) = modules_list();
        rule_names(&m, &list).unwrap_or_default()
    };
    sequences(ctx, "the application's modules, every sequence", &all, ctx.pick(3, 4), |p, t, l| {
        l.traces += 1;
        judge_names(p, &row_of(t), &known, l);
        true
    });
    let few = of("1 x ( ) + ! ␣ ? sub[] frac[|]");
    sequences(ctx, "the application's modules, longer sequences", &few, ctx.pick(5, 6), |p, t, l| {
        l.traces += 1;
        judge_names(p, &row_of(t), &known, l);
        true
    });
    // names that are registered in every order, twice
    let words = ["A", "B", "AB", "Aé", "X_1"];
    let paths: Vec<Vec<&str>> = {
        let mut v: Vec<Vec<&str>> = vec![];
        for a in words {
            for b in words {
                v.push(vec![a, b]);
            }
        }
        for a in &words[..2] {
            for b in &words[..3] {
                v.push(vec![a, b, "C"]);
            }
        }
        v
    };
    let n = paths.len();
    let max = ctx.pick(3, 4);
    let cases: Vec<Vec<usize>> = starts(n, 2);
    ctx.run(
        &format!("every order of registering up to {max} of {n} names"),
        &cases,
        |c| json!(c.iter().map(|k| paths[*k].join("::")).collect::<Vec<_>>()),
        || (),
        |_, c, l| {
            extend(&mut c.clone(), n, max, &mut |s| {
                l.states += 1;
                l.traces += 1;
                l.transitions += s.len() as u64;
                let r = guard(|| {
                    let mut m = ParseModules::new();
                    let mut ids: Vec<(usize, SyntaxNodeNameId)> = vec![];
                    for k in s {
                        let path = PathIdentifier::new(paths[*k].iter().map(|x| x.to_string()).collect());
                        let id = m.with_rule_name(path.clone());
                        for (other, oid) in &ids {
                            if (other == k) != (*oid == id) {
                                return Err(format!("{path} and {} have the identities {id:?} and {oid:?}", paths[*other].join("::")));
                            }
                        }
                        ids.push((*k, id));
                        if m.get_rule_name(path.clone()) != id || m.get_rule_name_map().get_reverse(id) != Some(&path) {
                            return Err(format!("{path} and {id:?} do not translate into each other"));
                        }
                        if path.to_string() != paths[*k].join("::") {
                            return Err(format!("{} prints as {path}", paths[*k].join("::")));
                        }
                    }
                    for (k, id) in &ids {
                        match m.get_rule_name_map().get_reverse(*id) {
                            Some(p) if p.to_string() == paths[*k].join("::") => {}
                            other => return Err(format!("{} is found as {other:?} later", paths[*k].join("::"))),
                        }
                    }
                    name_table(&m).map(|_| ())
                });
                match r {
                    Err(e) => l.fail("table", e.to_string()),
                    Ok(Err(e)) => l.fail("table", e),
                    Ok(Ok(())) => {}
                }
                !l.failed()
            });
        },
    );
}
