//! C39: parsers over any subset of the modules, and editors side by side.
use crate::ed::*;
use crate::editor::{reference_matches, run_cmd, Cmd};
use crate::grammar::*;
use parser::autocomplete::{AutocompleteMatcher, AutocompleteRule};
use parser::parse_module::ParseModule;
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules, collections_rules::CollectionsRules,
    comparison_rules::ComparisonRules, core_rules::CoreRules, function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use serde_json::json;
use std::rc::Rc;
use vcommon::*;

const MODULES: [&str; 8] = ["Core", "Arithmetic", "Calculus", "Collections", "Comparison", "Function", "Logic", "String"];
const ALL: u32 = 255;

fn make(k: usize, m: &mut ParseModules, b: &Rc<BuiltInRules>) -> Rc<dyn ParseModule> {
    match k {
        0 => Rc::new(CoreRules::new(m, b)),
        1 => Rc::new(ArithmeticRules::new(m)),
        2 => Rc::new(CalculusRules::new(m)),
        3 => Rc::new(CollectionsRules::new(m)),
        4 => Rc::new(ComparisonRules::new(m)),
        5 => Rc::new(FunctionRules::new(m, b)),
        6 => Rc::new(LogicRules::new(m)),
        _ => Rc::new(StringRules::new(m)),
    }
}
/// One registry with the modules made in the given order; parsers over subsets of them are built from it.
struct Registry {
    names: ParseModules,
    built_in: Rc<BuiltInRules>,
    made: Vec<Option<Rc<dyn ParseModule>>>,
    parsers: Vec<Option<Rc<MathParser>>>,
}
impl Registry {
    fn new(order: &[usize]) -> Registry {
        let mut names = ParseModules::new();
        let built_in = Rc::new(BuiltInRules::new(&mut names));
        let mut made: Vec<Option<Rc<dyn ParseModule>>> = vec![None; 8];
        for k in order {
            made[*k] = Some(make(*k, &mut names, &built_in));
        }
        Registry { names, built_in, made, parsers: vec![None; 256] }
    }
    fn list(&self, subset: u32) -> Vec<Rc<dyn ParseModule>> {
        let mut list: Vec<Rc<dyn ParseModule>> = vec![self.built_in.clone()];
        list.extend((0..8).filter(|k| subset >> k & 1 == 1).map(|k| self.made[k].clone().expect("made")));
        list
    }
    fn parser(&mut self, subset: u32) -> Rc<MathParser> {
        if self.parsers[subset as usize].is_none() {
            self.parsers[subset as usize] = Some(Rc::new(MathParser::new(ParseModuleCollection::new(self.built_in.clone(), self.list(subset)))));
        }
        self.parsers[subset as usize].clone().unwrap()
    }
    fn parse(&mut self, subset: u32, row: &Row) -> Result<Sn, PanicInfo> {
        let p = self.parser(subset);
        let real = nodes_to_real(row);
        guard(|| view(&p.parse(&real), names(&self.names)))
    }
    fn rules(&self, subset: u32) -> Vec<AutocompleteRule> {
        self.list(subset).iter().flat_map(|m| m.get_autocomplete_rules().to_vec()).collect()
    }
}
/// Which modules a tree mentions; None: something else than these and the built-in names.
fn used(n: &Sn) -> Option<u32> {
    let own = match n.name.split("::").next().unwrap() {
        "BuiltIn" | "Error" => 0,
        s => 1 << MODULES.iter().position(|m| *m == s)?,
    };
    let kids: &Vec<Sn> = match &n.kids {
        Kids::Rows(_, c) | Kids::Kids(c) => c,
        Kids::Leaf(..) => return Some(own),
    };
    kids.iter().try_fold(own, |a, c| Some(a | used(c)?))
}
fn show_set(s: u32) -> String {
    let v: Vec<&str> = (0..8).filter(|k| s >> k & 1 == 1).map(|k| MODULES[k]).collect();
    format!("{{{}}}", v.join(", "))
}
fn judge(r: &mut Registry, row: &Row, supersets: bool, subsets: bool, l: &mut Local) {
    l.states += 1;
    let full = match r.parse(ALL, row) {
        Err(e) => return l.fail("subset", format!("{}: {e}", show(row))),
        Ok(t) => t,
    };
    let Some(u) = used(&full) else {
        return l.fail("names", format!("{} parses to {full:?}, which mentions a name of no module", show(row)));
    };
    for m in 0..=ALL {
        let covers = m & u == u;
        let wanted = if covers { supersets || m == u || (m ^ u).count_ones() == 1 || (m ^ ALL).count_ones() == 1 } else { subsets };
        if !wanted || m == ALL {
            continue;
        }
        l.transitions += 1;
        match r.parse(m, row) {
            Err(e) => return l.fail("subset", format!("{} with the modules {}: {e}", show(row), show_set(m))),
            Ok(t) => {
                if covers && t != full {
                    return l.fail("subset", format!("{} only needs {}, but with {} it parses to {:?} instead of {:?}", show(row), show_set(u), show_set(m), shape(&t), shape(&full)));
                }
                if used(&t).map(|v| v & !m != 0).unwrap_or(true) {
                    return l.fail("names", format!("{} with only the modules {} parses to {:?}", show(row), show_set(m), shape(&t)));
                }
                if covers {
                    l.count("parsed the same with a subset", 1);
                }
            }
        }
    }
}
fn token_rows(tokens: &[Tok], max: usize) -> Vec<Row> {
    let mut out: Vec<Row> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|r| tokens.iter().map(move |t| [r.clone(), t.nodes.clone()].concat())).collect();
        out.extend(last.clone());
    }
    out
}

pub fn c39(ctx: &Ctx) {
    ctx.assume("which of two modules wins when both define a rule for the same text is not asserted; none of the modules do");
    let mut tokens = app_tokens();
    tokens.extend([space(), junk("?"), junk("\""), junk("\\"), junk("}")]);
    let few = pick(&tokens, "1 x ( ) + ! ␣ ? sub[] lim , ≥ ⊤ \"");
    // 1. rows of tokens
    let rows = token_rows(&tokens, 2);
    ctx.run("rows of up to two tokens x all subsets of the modules", &rows, row_json, || Registry::new(&[0, 1, 2, 3, 4, 5, 6, 7]), |r, row, l| {
        l.traces += 1;
        judge(r, row, true, true, l)
    });
    let rows = if ctx.thorough() { token_rows(&tokens, 3) } else { vec![] };
    let more = token_rows(&few, ctx.pick(4, 5));
    let rows = union(vec![rows, more]);
    ctx.run("longer rows x the modules they need, one more, all but one", &rows, row_json, || Registry::new(&[0, 1, 2, 3, 4, 5, 6, 7]), |r, row, l| {
        l.traces += 1;
        judge(r, row, false, false, l)
    });
    // 2. inside of containers
    let inner = token_rows(&tokens, 1);
    let mut rows: Vec<Row> = vec![];
    for a in &inner {
        for b in &inner {
            rows.push(vec![N::C(V::Frac, 1, vec![a.clone(), b.clone()])]);
            rows.push([a.clone(), vec![N::C(V::Sub, 1, vec![b.clone()])], a.clone()].concat());
            rows.push([b.clone(), vec![N::C(V::Table, 1, vec![a.clone(), vec![N::C(V::Root, 2, vec![vec![], b.clone()])]])]].concat());
        }
    }
    ctx.run("inside of containers", &rows, row_json, || Registry::new(&[0, 1, 2, 3, 4, 5, 6, 7]), |r, row, l| {
        l.traces += 1;
        judge(r, row, false, true, l)
    });
    // 3. registries in which only some modules were ever made, in any order
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    let mut i = 0;
    while i < orders.len() {
        if orders[i].len() < ctx.pick(3, 4) {
            for k in 0..8 {
                if !orders[i].contains(&k) {
                    let o = [orders[i].clone(), vec![k]].concat();
                    orders.push(o);
                }
            }
        }
        i += 1;
    }
    orders.push(vec![7, 6, 5, 4, 3, 2, 1, 0]);
    let probes = [token_rows(&tokens, 1), token_rows(&few, 2)].concat();
    ctx.run("registries with some of the modules, made in any order", &orders, |o| json!(o.iter().map(|k| MODULES[*k]).collect::<Vec<_>>()), || Registry::new(&[0, 1, 2, 3, 4, 5, 6, 7]), |all, order, l| {
        l.traces += 1;
        let set = order.iter().fold(0, |a, k| a | 1 << k);
        let mut own = match guard(|| Registry::new(order)) {
            Err(e) => return l.fail("registry", format!("making {order:?}: {e}")),
            Ok(r) => r,
        };
        for row in &probes {
            l.states += 1;
            l.transitions += 1;
            let (a, b) = (own.parse(set, row), all.parse(set, row));
            match (a, b) {
                (Ok(a), Ok(b)) if a == b => (),
                (a, b) => {
                    return l.fail("registry", format!("{} with the modules {}: {:?}, in a registry with all modules: {:?}", show(row), show_set(set), a.map(|t| shape(&t)).map_err(|e| e.msg), b.map(|t| shape(&t)).map_err(|e| e.msg)));
                }
            }
        }
    });
    // 4. completions are those of the modules
    let words: Vec<Row> = {
        let all = Registry::new(&[0, 1, 2, 3, 4, 5, 6, 7]).rules(ALL);
        let mut v = vec![];
        for r in &all {
            let c: Row = r.parser.chars().map(|c| sym(&c.to_string())).collect();
            for n in 1..=c.len() {
                v.push(c[..n].to_vec());
                v.push([vec![sym("1")], c[..n].to_vec()].concat());
            }
        }
        union(vec![v])
    };
    let sets: Vec<u32> = (0..=ALL).collect();
    ctx.run("completions of every subset", &sets, |s| json!(show_set(*s)), || Registry::new(&[0, 1, 2, 3, 4, 5, 6, 7]), |r, set, l| {
        l.traces += 1;
        let rules = r.rules(*set);
        let p = r.parser(*set);
        for row in &words {
            for min in 1..=3 {
                l.states += 1;
                l.transitions += 1;
                let real = nodes_to_real(row);
                let got = guard(|| p.matches(&real, row.len(), min).iter().map(|m| (m.rule.parser.clone(), format!("{:?}", m.rule.result), m.rule_match_length, m.input_match_length)).collect::<Vec<_>>());
                let mut want: Vec<_> = reference_matches(&rules, row, row.len(), min).iter().map(|m| (rules[m.0].parser.clone(), format!("{:?}", rules[m.0].result), m.1, m.2)).collect();
                want.sort();
                match got {
                    Ok(mut g) => {
                        g.sort();
                        if g != want {
                            return l.fail("completions", format!("{} with the modules {}: offered {g:?}, should be {want:?}", show(row), show_set(*set)));
                        }
                    }
                    Err(e) => return l.fail("completions", format!("{e}")),
                }
            }
        }
    });
    // 5. editors side by side
    let chars = |s: &str| -> Row { s.chars().map(|c| sym(&c.to_string())).collect() };
    let pairs: Vec<(u32, u32, Row, Row)> = {
        let sets = [(ALL, ALL), (ALL, 0b1), (ALL, ALL & !0b100), (0b11, 0b110)];
        let forms = [(chars("su"), chars("1+")), (chars("li"), chars("l")), (vec![N::C(V::Frac, 1, vec![chars("a"), chars("su")])], vec![])];
        sets.iter().flat_map(|(a, b)| forms.iter().map(move |(f, g)| (*a, *b, f.clone(), g.clone()))).collect()
    };
    use Cmd::*;
    let cmds = [Put(4), Type(&["m"]), Type(&["="]), Move(Dir::L), Shift(Dir::L), Backspace, Undo, Redo, Pick(true), Accept, Syntax, Copy, PasteCopied];
    let depth = ctx.pick(3, 4);
    let cases: Vec<(usize, usize, bool)> = (0..pairs.len()).flat_map(|p| (0..cmds.len()).flat_map(move |c| [(p, c, false), (p, c, true)])).collect();
    ctx.run(
        "editors side by side, every interleaving of their commands",
        &cases,
        |(p, c, second)| json!({"modules": [show_set(pairs[*p].0), show_set(pairs[*p].1)], "formulas": [row_json(&pairs[*p].2), row_json(&pairs[*p].3)], "first": format!("{:?} in editor {}", cmds[*c], *second as usize)}),
        || Registry::new(&[0, 1, 2, 3, 4, 5, 6, 7]),
        |r, (p, c, second), l| {
            l.traces += 1;
            let (sa, sb, fa, fb) = &pairs[*p];
            let (pa, pb) = (r.parser(*sa), r.parser(*sb));
            let map = names(&r.names);
            let state = |ed: &mut Ed| {
                let s = ed.snap();
                let a = ed.e.get_autocomplete().map(|a| (a.destructure().0, a.destructure().1.iter().map(|m| m.rule.parser.clone()).collect::<Vec<_>>()));
                (s, a, format!("{:?}", shape(&view(ed.e.get_syntax_tree(), map))))
            };
            // words over both editors: (command, in which editor); the alphabet is encoded in the position
            let mut visit = |word: &[(usize, bool)], l: &mut Local| -> bool {
                l.states += 1;
                l.transitions += 1;
                let solo = |which: bool| {
                    guard(|| {
                        let mut ed = Ed::new(if which { &pb } else { &pa }, if which { fb } else { fa });
                        let mut clip = None;
                        for (c, w) in word {
                            if *w == which {
                                run_cmd(&mut ed, &mut clip, &cmds[*c]);
                            }
                        }
                        state(&mut ed)
                    })
                };
                let both = guard(|| {
                    let mut eds = [Ed::new(&pa, fa), Ed::new(&pb, fb)];
                    let mut clips = [None, None];
                    for (c, w) in word {
                        run_cmd(&mut eds[*w as usize], &mut clips[*w as usize], &cmds[*c]);
                    }
                    let [mut a, mut b] = eds;
                    (state(&mut a), state(&mut b))
                });
                match (both, solo(false), solo(true)) {
                    (Ok((a, b)), Ok(c), Ok(d)) => {
                        if a != c || b != d {
                            let w: Vec<String> = word.iter().map(|(c, w)| format!("{:?} in editor {}", cmds[*c], *w as usize)).collect();
                            l.fail("side-by-side", format!("{w:?}: {a:?} and {b:?}, alone they are {c:?} and {d:?}"));
                            return false;
                        }
                        true
                    }
                    // a command that is not available here (a table selection); judged elsewhere
                    (Err(_), Err(_), _) | (Err(_), _, Err(_)) => false,
                    (Err(e), _, _) => {
                        l.fail("side-by-side", format!("{word:?}: {e}; alone both editors are fine"));
                        false
                    }
                    (Ok(_), _, _) => {
                        l.fail("side-by-side", format!("{word:?} fails alone"));
                        false
                    }
                }
            };
            let mut word = vec![(*c, *second)];
            fn go(word: &mut Vec<(usize, bool)>, n: usize, depth: usize, visit: &mut dyn FnMut(&[(usize, bool)]) -> bool) {
                if !visit(word) || word.len() == depth {
                    return;
                }
                for c in 0..n {
                    for w in [false, true] {
                        word.push((c, w));
                        go(word, n, depth, visit);
                        word.pop();
                    }
                }
            }
            go(&mut word, cmds.len(), depth, &mut |w| visit(w, l));
        },
    );
}
