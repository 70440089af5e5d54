import os,runpy
USE=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),"bugs_editor.py"))["USE"]
P="aftermath-core/parser/src/"
SUB='''
fn only(which: &[&str], early: bool) -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let mut list: Vec<Rc<dyn parser::parse_module::ParseModule>> = vec![b.clone()];
    for w in which {
        list.push(match *w {
            "core" => Rc::new(CoreRules::new(&mut m, &b)),
            "arithmetic" => Rc::new(ArithmeticRules::new(&mut m)),
            "calculus" => Rc::new(CalculusRules::new(&mut m)),
            "collections" => Rc::new(CollectionsRules::new(&mut m)),
            "function" => Rc::new(FunctionRules::new(&mut m, &b)),
            _ => Rc::new(LogicRules::new(&mut m)),
        });
    }
    let _ = early;
    (MathParser::new(ParseModuleCollection::new(b, list)), m)
}
fn printed(p: &(MathParser, ParseModules), nodes: Vec<InputNode>) -> String {
    let t = p.0.parse(&nodes);
    let s = t.with_display(p.1.get_rule_name_map()).to_string();
    s
}
'''
BUGS=[
dict(id="modules-function-needs-core",property="C39",kind="full",
 needs="the function module in a registry in which the core module has not been made before it",
 breaks="the function module takes the name of the core module's brackets and cannot be used without the core module",
 edits=[(P+"rule_collections/function_rules.rs","""    fn get_rules(modules: &mut ParseModules, built_in_rules: &BuiltInRules) -> Vec<ParseRule> {
        vec![
            postfix_rule(""","""    fn get_rules(modules: &mut ParseModules, built_in_rules: &BuiltInRules) -> Vec<ParseRule> {
        // The argument list is a pair of brackets, too
        let _brackets_rule_name = modules.get_rule_name(PathIdentifier::new(vec![
            "Core".into(),
            "RoundBrackets".into(),
        ]));
        vec![
            postfix_rule(""")],
 main=USE+SUB+'''
fn main() {
    let p = only(&["arithmetic", "function"], true);
    println!("{}", printed(&p, input_nodes! {"1", "+", "2"}));
}
'''),
dict(id="modules-shared-completions",property="C39",kind="full",
 needs="two parsers over different modules in the same program",
 breaks="the completions are collected once and then shared by all parsers, whichever modules they have",
 edits=[(P+"parser.rs","""        let autocomplete_rules = parse_modules
            .get_modules()
            .iter()
            .flat_map(|v| v.get_autocomplete_rules())
            .rev()
            .cloned()
            .collect();
""","""        // Collecting the rules is slow, so it is only done once
        thread_local! {
            static RULES: std::cell::RefCell<Option<Vec<AutocompleteRule>>> = Default::default();
        }
        let autocomplete_rules: Vec<AutocompleteRule> = RULES.with(|rules| {
            rules
                .borrow_mut()
                .get_or_insert_with(|| {
                    parse_modules
                        .get_modules()
                        .iter()
                        .flat_map(|v| v.get_autocomplete_rules())
                        .rev()
                        .cloned()
                        .collect()
                })
                .clone()
        });
""")],
 main=USE+SUB+'''
fn main() {
    let offers = |p: (MathParser, ParseModules)| -> Vec<String> {
        let mut e = MathEditor::new(Rc::new(p.0));
        e.splice_at_range(r(&[], 0, 0), input_nodes! {"s", "u"});
        at(&mut e, crate::p(&[], 2));
        e.get_autocomplete().map(|a| a.destructure().1.iter().map(|m| m.rule.parser.clone()).collect()).unwrap_or_default()
    };
    assert_eq!(offers(only(&["core", "calculus"], true)), vec!["sum".to_string()]);
    assert_eq!(offers(only(&["core", "arithmetic"], true)), Vec::<String>::new());
    assert_eq!(offers(only(&["core", "calculus"], true)), vec!["sum".to_string()]);
}
'''),
dict(id="modules-error-strength",property="C39",kind="full",
 needs="a formula with two operands without an operator between them, parsed with few modules",
 breaks="how strongly an error binds depends on which modules are there",
 edits=[(P+"math_parser.rs","""                    missing_operator_binding_power: BindingPower::LeftInfix(100),
""","""                    missing_operator_binding_power: BindingPower::LeftInfix(
                        // An implied multiplication, if there are any functions
                        if self.parse_modules.get_modules().len() > 8 {
                            100
                        } else {
                            200
                        },
                    ),
""")],
 main=USE+SUB+'''
fn main() {
    let f = || input_nodes! {"1", "+", "2", "∞"};
    let a = printed(&parser(), f());
    let b = printed(&only(&["arithmetic", "calculus"], true), f());
    println!("{a}\\n{b}");
    assert_eq!(a, b);
}
'''),
dict(id="syntax-table-size",property="C40",kind="full",
 needs="printing the syntax tree of a formula with a table that is not square",
 breaks="width and height of a table are printed the wrong way around",
 edits=[(P+"syntax_tree/display_syntax_tree.rs",'write!(f, "{}x{}", width, height)?;','write!(f, "{}x{}", height, width)?;')],
 main=USE+'''
fn main() {
    let s = parse(input_nodes! {(table 2 x 1 (row "a"), (row "b"))});
    println!("{s}");
    assert!(s.contains(" 2x1 "));
}
'''),
dict(id="syntax-value-digits",property="C40",kind="full",
 needs="printing a node with a value that has a byte below 16",
 breaks="small bytes are printed with one digit, so that different values look the same",
 edits=[(P+"syntax_tree/display_syntax_tree.rs",'write!(f, "{:02x}", byte)?;','write!(f, "{:x}", byte)?;')],
 main=USE+'''
use parser::syntax_tree::*;
fn main() {
    let map = SyntaxNodeNameMap::new();
    let s = |v: Vec<u8>| SyntaxNodeBuilder::new_leaf_node(vec!["a".into()], LeafNodeType::Symbol).set_value(v).build(SyntaxNodeNameId::new(0), 0..1).with_display(&map).to_string();
    assert_ne!(s(vec![1, 0x11]), s(vec![0x11, 1]));
}
'''),
dict(id="syntax-gap-accepted",property="C40",kind="full",
 needs="building a node whose children leave a gap",
 breaks="a syntax tree that skips part of the input can be built",
 edits=[(P+"syntax_tree/syntax_node.rs","assert!(prev_child_range.end == child_range.start);","assert!(prev_child_range.end <= child_range.start);")],
 main=USE+'''
use parser::syntax_tree::*;
fn main() {
    let leaf = |a: usize, b: usize| SyntaxNodeBuilder::new_leaf_node(vec!["a".into()], LeafNodeType::Symbol).build(SyntaxNodeNameId::new(0), a..b);
    let build = |gap: usize| std::panic::catch_unwind(|| SyntaxNode::new(SyntaxNodeNameId::new(0), 0..3, SyntaxNodeChildren::Children(vec![leaf(0, 1), leaf(1 + gap, 3)])));
    assert!(build(0).is_ok());
    assert!(build(1).is_err());
}
'''),
]
