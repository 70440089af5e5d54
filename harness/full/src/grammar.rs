//! The expression language as documented by the rule collections: tokens, a reference parser (operator-precedence
//! parsing with an explicit stack, not the repository's recursive descent) and the view of syntax trees that the
//! checks compare.
use parser::parse_modules::ParseModules;
use parser::syntax_tree::{SyntaxNode, SyntaxNodeChildren, SyntaxNodeNameMap};
use vcommon::*;

/// A syntax tree with names resolved.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sn {
    pub name: String,
    pub start: usize,
    pub end: usize,
    pub kids: Kids,
    pub value: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kids {
    Rows(usize, Vec<Sn>),
    Kids(Vec<Sn>),
    /// The text, and the symbols it is stored as.
    Leaf(String, Vec<String>),
}
pub fn view(n: &SyntaxNode, names: &SyntaxNodeNameMap) -> Sn {
    use input_tree::grid::{Grid};
    let name = names.get_reverse(n.name).map(|p| p.to_string()).unwrap_or_else(|| "<unregistered>".into());
    let kids = match &n.children {
        SyntaxNodeChildren::NewRows(g) => Kids::Rows(g.width(), g.values().map(|c| view(c, names)).collect()),
        SyntaxNodeChildren::Children(c) => Kids::Kids(c.iter().map(|c| view(c, names)).collect()),
        SyntaxNodeChildren::Leaf(l) => Kids::Leaf(l.symbols.concat(), l.symbols.clone()),
    };
    Sn { name, start: n.range().start, end: n.range().end, kids, value: n.value.clone() }
}

/// A syntax tree without ranges.
#[derive(Clone, PartialEq, Eq)]
pub enum T {
    Node(String, Vec<T>),
    Leaf(String, String),
    Rows(String, usize, Vec<T>),
}
impl std::fmt::Debug for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let list = |f: &mut std::fmt::Formatter<'_>, c: &Vec<T>| -> std::fmt::Result {
            for c in c {
                write!(f, " {c:?}")?;
            }
            write!(f, ")")
        };
        match self {
            T::Node(n, c) => {
                write!(f, "({n}")?;
                list(f, c)
            }
            T::Leaf(n, s) => write!(f, "({n} {s:?})"),
            T::Rows(n, w, c) => {
                write!(f, "({n} width {w}:")?;
                list(f, c)
            }
        }
    }
}
pub fn shape(n: &Sn) -> T {
    match &n.kids {
        Kids::Rows(w, c) => T::Rows(n.name.clone(), *w, c.iter().map(shape).collect()),
        Kids::Kids(c) => T::Node(n.name.clone(), c.iter().map(shape).collect()),
        Kids::Leaf(s, _) => T::Leaf(n.name.clone(), s.clone()),
    }
}
/// Removes whitespace entries.
pub fn without_spaces(t: &T) -> T {
    let strip = |c: &Vec<T>| -> Vec<T> { c.iter().filter(|c| !matches!(c, T::Leaf(n, _) if n == "BuiltIn::Whitespace")).map(without_spaces).collect() };
    match t {
        T::Node(n, c) => {
            let mut kids = strip(c);
            if n == "BuiltIn::Whitespaces" && kids.len() == 1 {
                return kids.pop().unwrap();
            }
            T::Node(n.clone(), kids)
        }
        T::Leaf(..) => t.clone(),
        T::Rows(n, w, c) => T::Rows(n.clone(), *w, c.iter().map(without_spaces).collect()),
    }
}
pub fn mentions(t: &T, name: &str) -> bool {
    match t {
        T::Node(n, c) => n == name || c.iter().any(|c| mentions(c, name)),
        T::Leaf(n, _) => n == name,
        T::Rows(n, _, c) => n == name || c.iter().any(|c| mentions(c, name)),
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Role {
    Operand(T),
    Prefix(String, u16),
    Infix(String, u16, bool),
    /// both: (prefix name, power), (infix name, power)
    Both(String, u16, String, u16),
    Postfix(String, u16),
    Open,
    Close,
    /// a sub- or superscript with the tree of its content
    Script(&'static str, T),
    Space,
    /// not part of any well-formed expression
    Junk,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub text: &'static str,
    pub nodes: Row,
    pub role: Role,
}
fn chars(s: &str) -> Row {
    s.chars().map(|c| sym(&c.to_string())).collect()
}
fn leaf(n: &str, s: &str) -> T {
    T::Leaf(n.into(), s.into())
}
pub fn number(s: &'static str) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Operand(leaf("Arithmetic::Number", s)) }
}
pub fn variable(s: &'static str) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Operand(leaf("Core::Variable", s)) }
}
pub fn constant(s: &'static str, name: &str) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Operand(leaf(name, s)) }
}
pub fn infix(s: &'static str, name: &str, power: u16) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Infix(name.into(), power, false) }
}
pub fn infix_right(s: &'static str, name: &str, power: u16) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Infix(name.into(), power, true) }
}
pub fn prefix(s: &'static str, name: &str, power: u16) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Prefix(name.into(), power) }
}
pub fn both(s: &'static str, name: &str, pre: u16, inf: u16) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Both(name.into(), pre, name.into(), inf) }
}
pub fn postfix(s: &'static str, name: &str, power: u16) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Postfix(name.into(), power) }
}
pub fn script(s: &'static str, v: V, name: &'static str, row: Row, tree: T) -> Tok {
    Tok { text: s, nodes: vec![N::C(v, 1, vec![row])], role: Role::Script(name, tree) }
}
pub fn container(s: &'static str, v: V, w: usize, cells: Vec<Row>, trees: Vec<T>) -> Tok {
    let name = match v {
        V::Frac => "BuiltIn::Fraction",
        V::Root => "BuiltIn::Root",
        V::Table => "BuiltIn::Table",
        _ => unreachable!(),
    };
    Tok { text: s, nodes: vec![N::C(v, w, cells)], role: Role::Operand(T::Rows(name.into(), w, trees)) }
}
pub fn open() -> Tok {
    Tok { text: "(", nodes: chars("("), role: Role::Open }
}
pub fn close() -> Tok {
    Tok { text: ")", nodes: chars(")"), role: Role::Close }
}
pub fn space() -> Tok {
    Tok { text: "␣", nodes: chars(" "), role: Role::Space }
}
pub fn junk(s: &'static str) -> Tok {
    Tok { text: s, nodes: chars(s), role: Role::Junk }
}
fn missing() -> T {
    T::Node("Error::MissingToken".into(), vec![])
}

/// Every kind of token of the application's rule collections. The binding powers are the documented ones.
pub fn app_tokens() -> Vec<Tok> {
    let x = || leaf("Core::Variable", "x");
    let one = || leaf("Arithmetic::Number", "1");
    let sum = T::Node("Arithmetic::Add".into(), vec![one(), leaf("BuiltIn::Operator", "+"), x()]);
    vec![
        number("1"),
        number("20"),
        number("3.14"),
        variable("x"),
        variable("ab"),
        variable("y1"),
        variable("é"),
        constant("∞", "Calculus::Infinity"),
        constant("⊤", "Logic::True"),
        constant("⊥", "Logic::False"),
        constant("\"a (\"", "String::String"),
        constant("\"\\\"\\\\\"", "String::String"),
        constant("\"\"", "String::String"),
        container("frac[1|x]", V::Frac, 1, vec![chars("1"), chars("x")], vec![one(), x()]),
        container("frac[|]", V::Frac, 1, vec![vec![], vec![]], vec![missing(), missing()]),
        container("root[|1+x]", V::Root, 2, vec![vec![], chars("1+x")], vec![missing(), sum.clone()]),
        container("table2[x|1|1+x|]", V::Table, 2, vec![chars("x"), chars("1"), chars("1+x"), vec![]], vec![x(), one(), sum.clone(), missing()]),
        both("+", "Arithmetic::Add", 400, 100),
        both("-", "Arithmetic::Subtract", 400, 100),
        infix("*", "Arithmetic::Multiply", 200),
        infix("/", "Arithmetic::Divide", 200),
        infix("=", "Comparison::Equals", 40),
        infix(">", "Comparison::GreaterThan", 50),
        infix("<", "Comparison::LessThan", 50),
        infix("≥", "Comparison::GreaterThanOrEquals", 50),
        infix("≤", "Comparison::LessThanOrEquals", 50),
        infix(",", "Collections::Tuple", 50),
        infix("∧", "Logic::And", 100),
        infix("∨", "Logic::Or", 100),
        infix("¬", "Logic::Not", 100),
        infix("⇔", "Logic::Equivalent", 100),
        infix("⟹", "Logic::Implies", 100),
        prefix("lim", "Calculus::Lim", 100),
        prefix("limsup", "Calculus::LimSup", 100),
        prefix("liminf", "Calculus::LimInf", 100),
        prefix("∑", "Calculus::Sum", 100),
        prefix("∫", "Calculus::Integral", 100),
        postfix("!", "Arithmetic::Factorial", 600),
        postfix("^", "Arithmetic::Exponent", 850),
        open(),
        close(),
        script("sup[1]", V::Sup, "BuiltIn::Sup", chars("1"), one()),
        script("sub[1+x]", V::Sub, "BuiltIn::Sub", chars("1+x"), sum),
        script("sub[]", V::Sub, "BuiltIn::Sub", vec![], missing()),
    ]
}
pub fn pick(tokens: &[Tok], texts: &str) -> Vec<Tok> {
    texts.split(' ').map(|t| tokens.iter().find(|k| k.text == t).unwrap_or_else(|| panic!("no token {t}")).clone()).collect()
}
pub fn row_of(tokens: &[&Tok]) -> Row {
    tokens.iter().flat_map(|t| t.nodes.iter().cloned()).collect()
}

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn digits(s: &str) -> bool {
    s.chars().all(|c| c.is_ascii_digit() || c == '.')
}
/// Would these two tokens, written without a space, be read as other tokens?
pub fn merges(a: &Tok, b: &Tok) -> bool {
    if a.nodes.iter().chain(&b.nodes).any(|n| !n.is_sym()) {
        return false;
    }
    let first = b.text.chars().next().unwrap();
    match &a.role {
        Role::Operand(T::Leaf(n, _)) if n == "Core::Variable" => word(first),
        Role::Operand(T::Leaf(n, _)) if n == "Arithmetic::Number" => digits(b.text) || first == '.',
        Role::Prefix(..) if a.text == "lim" => b.text.starts_with("sup") || b.text.starts_with("inf"),
        _ => false,
    }
}

type Bp = (u16, u8);
const WEAK: u8 = 0;
const STRONG: u8 = 1;
enum Op {
    Prefix(String, T, Bp),
    Infix(String, T, Bp),
    Missing(Bp),
    Round,
    Call,
}

/// The documented reading of a well-formed token sequence; None if the sequence is not well-formed.
/// `missing` is whether two operands may stand next to each other (a marked missing operator, power 100).
pub fn reference(tokens: &[&Tok], missing_power: Option<u16>) -> Option<T> {
    let mut ops: Vec<Op> = vec![];
    let mut vals: Vec<T> = vec![];
    let op = |s: &str| leaf("BuiltIn::Operator", s);
    fn reduce(ops: &mut Vec<Op>, vals: &mut Vec<T>) {
        match ops.pop().unwrap() {
            Op::Prefix(n, o, _) => {
                let a = vals.pop().unwrap();
                vals.push(T::Node(n, vec![o, a]));
            }
            Op::Infix(n, o, _) => {
                let b = vals.pop().unwrap();
                let a = vals.pop().unwrap();
                vals.push(T::Node(n, vec![a, o, b]));
            }
            Op::Missing(_) => {
                let b = vals.pop().unwrap();
                let a = vals.pop().unwrap();
                vals.push(T::Node("Error::MissingOperator".into(), vec![a, missing(), b]));
            }
            Op::Round | Op::Call => unreachable!(),
        }
    }
    // operators that bind tighter than a left binding power are complete
    fn settle(ops: &mut Vec<Op>, vals: &mut Vec<T>, left: Bp) {
        while let Some(Op::Prefix(_, _, r) | Op::Infix(_, _, r) | Op::Missing(r)) = ops.last() {
            if *r <= left {
                break;
            }
            reduce(ops, vals);
        }
    }
    let mut have = false;
    let mut i = 0;
    let mut previous_op = false;
    let mut just_opened = false;
    while i < tokens.len() {
        let t = tokens[i];
        i += 1;
        let was_op = previous_op;
        let was_opened = just_opened;
        previous_op = false;
        just_opened = false;
        if have {
            if let (Role::Operand(_) | Role::Prefix(..), Some(p)) = (&t.role, missing_power) {
                settle(&mut ops, &mut vals, (p, WEAK));
                ops.push(Op::Missing((p, STRONG)));
                have = false;
            }
        }
        match (&t.role, have) {
            (Role::Operand(v), false) => {
                vals.push(v.clone());
                have = true;
            }
            (Role::Prefix(n, p) | Role::Both(n, p, _, _), false) => {
                ops.push(Op::Prefix(n.clone(), op(t.text), (*p, STRONG)));
                previous_op = true;
            }
            (Role::Infix(n, p, right), true) => {
                settle(&mut ops, &mut vals, (*p, if *right { STRONG } else { WEAK }));
                ops.push(Op::Infix(n.clone(), op(t.text), (*p, if *right { WEAK } else { STRONG })));
                have = false;
                previous_op = true;
            }
            (Role::Both(_, _, n, p), true) => {
                settle(&mut ops, &mut vals, (*p, WEAK));
                ops.push(Op::Infix(n.clone(), op(t.text), (*p, STRONG)));
                have = false;
                previous_op = true;
            }
            (Role::Postfix(n, p), true) => {
                settle(&mut ops, &mut vals, (*p, STRONG));
                let a = vals.pop().unwrap();
                vals.push(T::Node(n.clone(), vec![a, op(t.text)]));
            }
            (Role::Script(n, tree), true) => {
                settle(&mut ops, &mut vals, (1000, STRONG));
                let a = vals.pop().unwrap();
                vals.push(T::Node(n.to_string(), vec![a, T::Rows("BuiltIn::Operator".into(), 1, vec![tree.clone()])]));
            }
            (Role::Script(n, tree), false) if was_op => {
                // a script on the operator itself
                if let Some(Op::Prefix(_, o, _) | Op::Infix(_, o, _)) = ops.last_mut() {
                    let inner = std::mem::replace(o, missing());
                    *o = T::Node(n.to_string(), vec![inner, T::Rows("BuiltIn::Operator".into(), 1, vec![tree.clone()])]);
                }
                previous_op = true;
            }
            (Role::Open, false) => {
                ops.push(Op::Round);
                just_opened = true;
            }
            (Role::Open, true) => {
                settle(&mut ops, &mut vals, (800, STRONG));
                ops.push(Op::Call);
                have = false;
                just_opened = true;
            }
            (Role::Close, h) => {
                let mut inside = vec![op("(")];
                if h {
                    while !matches!(ops.last()?, Op::Round | Op::Call) {
                        reduce(&mut ops, &mut vals);
                    }
                    inside.push(vals.pop().unwrap());
                } else if !was_opened {
                    return None;
                }
                inside.push(op(")"));
                match ops.pop()? {
                    Op::Round => vals.push(T::Node("Core::RoundBrackets".into(), inside)),
                    Op::Call => {
                        let f = vals.pop().unwrap();
                        vals.push(T::Node("Function::FunctionApplication".into(), vec![f, T::Node("BuiltIn::Operator".into(), inside)]));
                    }
                    _ => unreachable!(),
                }
                have = true;
            }
            _ => return None,
        }
        let _ = was_op;
    }
    if !have {
        return None;
    }
    while let Some(o) = ops.last() {
        if matches!(o, Op::Round | Op::Call) {
            return None;
        }
        reduce(&mut ops, &mut vals);
    }
    assert_eq!(vals.len(), 1);
    vals.pop()
}

/// Could the sequence be the beginning of a well-formed expression?
pub fn viable(tokens: &[&Tok]) -> bool {
    let mut have = false;
    let mut depth = 0usize;
    let mut prev_op = false;
    let mut opened = false;
    for t in tokens {
        let (was_op, was_opened) = (prev_op, opened);
        prev_op = false;
        opened = false;
        match (&t.role, have) {
            (Role::Operand(_), _) => have = true,
            (Role::Prefix(..), _) | (Role::Both(..), _) => {
                have = false;
                prev_op = true;
            }
            (Role::Infix(..), true) => {
                have = false;
                prev_op = true;
            }
            (Role::Postfix(..), true) | (Role::Script(..), true) => {}
            (Role::Script(..), false) if was_op => prev_op = true,
            (Role::Open, _) => {
                depth += 1;
                have = false;
                opened = true;
            }
            (Role::Close, h) if depth > 0 && (h || was_opened) => {
                depth -= 1;
                have = true;
            }
            _ => return false,
        }
    }
    true
}
pub fn names(m: &ParseModules) -> &SyntaxNodeNameMap {
    m.get_rule_name_map()
}
