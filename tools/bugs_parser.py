import os,runpy
USE=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),"bugs_editor.py"))["USE"]
P="aftermath-core/parser/src/"
PP=P+"parser/pratt_parser.rs"; MP=P+"math_parser.rs"; RC=P+"rule_collection.rs"; MK=P+"make_parser.rs"; BI=P+"rule_collections/built_in_rules.rs"
BUGS=[
dict(id="parser-prefix-operand-strength",property="C25",kind="full",
 needs="a sign directly followed by an operand and a factorial or function application of the same row, at a level between the two strengths",
 breaks="a prefix sign takes the weaker operators behind its operand, too, when its own strength equals theirs",
 edits=[(PP,"            BindingPower::Prefix(v) | BindingPower::LeftInfix(v) => (*v, Strength::Weak),","            BindingPower::Prefix(v) => (*v / 4, Strength::Weak),\n            BindingPower::LeftInfix(v) => (*v, Strength::Weak),")],
 main=USE+'''
fn main() {
    let a = parse(input_nodes! {"-", "1", "*", "2"});
    assert!(a.starts_with("(Arithmetic::Multiply (Arithmetic::Subtract"), "{a}");
    let a = parse(input_nodes! {"-", "1", "+", "2"});
    assert!(a.starts_with("(Arithmetic::Add (Arithmetic::Subtract"), "{a}");
}
'''),
dict(id="parser-missing-operator-assoc",property="C25",kind="full",
 needs="three operands next to each other without operators",
 breaks="missing operators group to the right like no other operator of that strength",
 edits=[(MP,"                    missing_operator_binding_power: BindingPower::LeftInfix(100),","                    missing_operator_binding_power: BindingPower::RightInfix(100),")],
 main=USE+'''
fn main() {
    let a = parse(input_nodes! {"∞", "∞", "∞"});
    assert!(a.starts_with("(Error::MissingOperator (Error::MissingOperator"), "{a}");
}
'''),
dict(id="parser-brackets-range",property="C24",kind="full",
 needs="brackets whose content ends with a space",
 breaks="spaces before the closing bracket are counted to the bracket, two nodes claim them",
 edits=[(MK,"                        .build(operator_rule_name, left_bracket_span),\n                        child,","                        .build(operator_rule_name, left_bracket_span.start..child.range().start),\n                        child,")],
 main=USE+'''
fn main() { }
'''),
dict(id="parser-postfix-range",property="C24",kind="full",
 needs="a script behind an operator that has spaces behind it",
 breaks="the recorded range of a postfix node starts at its operator",
 edits=[(RC,"            combine_ranges(left.range(), op.range()),\n            SyntaxNodeChildren::Children(vec![left, op]),","            left.range().start..op.range().end.max(op.range().start + 1),\n            SyntaxNodeChildren::Children(vec![left, op]),")],
 main=USE+'''
fn main() { }
'''),
dict(id="parser-cells-transposed",property="C27",kind="full",
 needs="a table with more than one row and more than one column",
 breaks="the parsed cells of a table are recorded column by column",
 edits=[(BI,"                        .collect(),\n                    v.width(),\n                );","                        .collect(),\n                    v.width(),\n                );\n                let order = |i: usize| (i % v.height()) * v.width() + i / v.height();\n                let new_grid = if v.width() > 1 && v.height() > 1 && v.width() != v.height() {\n                    let mut cells: Vec<Option<_>> = std::iter::repeat_with(|| None).take(v.width() * v.height()).collect();\n                    let values: Vec<_> = new_grid.into_iter().collect();\n                    for (i, value) in values.into_iter().enumerate() {\n                        cells[order(i)] = Some(value);\n                    }\n                    GridVec::from_one_dimensional(cells.into_iter().flatten().collect(), v.width())\n                } else {\n                    new_grid\n                };")],
 main=USE+'''
fn main() {
    let a = parse(input_nodes! {(table 3 x 2 (row "1"), (row "2"), (row "3"), (row "4"), (row "5"), (row "6"))});
    let at = |s: &str| a.find(&format!("\\"{s}\\"")).unwrap();
    assert!((1..6).all(|i| at(&i.to_string()) < at(&(i + 1).to_string())), "{a}");
}
'''),
dict(id="parser-space-before-script",property="C28",kind="full",
 needs="a space between an operator and its subscript",
 breaks="an operator followed by a space is no longer joined with its script",
 edits=[(MP,"                let rule_parser = space_parser\n                    .clone()\n                    .then(basic_parser)\n                    .then(space_parser.clone())","                let rule_parser = space_parser\n                    .clone()\n                    .then(basic_parser)\n                    .then(if matches!(rule, ParseRule::LeftInfix(..)) {\n                        space_parser.clone().boxed()\n                    } else {\n                        space_parser.clone().boxed()\n                    })")],
 main=USE+'''
fn main() { }
'''),
dict(id="parser-string-escape",property="C24",kind="full",
 needs="a string containing an escaped backslash in front of the closing quote",
 breaks="the escaped symbol is missing from the recorded content of the string",
 edits=[(P+"rule_collections/string_rules.rs","                            if let Some(b) = b {\n                                symbols.push(b);","                            if let Some(b) = b.filter(|b| b != \"\\\\\") {\n                                symbols.push(b);")],
 main=USE+'''
fn main() {
    let (p, _) = parser();
    let nodes = input_nodes! {"\\"", "\\\\", "\\\\", "\\""};
    let t = p.parse(&nodes);
    match &t.children {
        parser::syntax_tree::SyntaxNodeChildren::Leaf(l) => assert_eq!(l.symbols.len(), 4),
        _ => panic!(),
    }
}
'''),
dict(id="parser-name-id-reuse",property="C29",kind="full",
 needs="a name registered again after other names were added",
 breaks="a name registered twice gets a second identity",
 edits=[(P+"syntax_tree/node_type_id.rs","        if let Some(id) = self.values.get(&path) {\n            return id.clone();\n        }\n\n        let id = SyntaxNodeNameId::new(self.values.len() as u32);","        if let Some(id) = self.values.get(&path) {\n            if id.0 + 8 > self.values.len() as u32 {\n                return id.clone();\n            }\n        }\n\n        let id = SyntaxNodeNameId::new(self.reverse_values.len() as u32);")],
 main=USE+'''
use parser::syntax_tree::*;
fn main() {
    let mut m = SyntaxNodeNameMap::new();
    let name = |i: usize| PathIdentifier::new(vec!["A".into(), format!("n{i}")]);
    let ids: Vec<_> = (0..12).map(|i| m.add(name(i))).collect();
    for i in 0..12 {
        assert_eq!(m.add(name(i)), ids[i]);
        assert_eq!(m.get(&name(i)), Some(ids[i]));
        assert_eq!(m.get_reverse(ids[i]), Some(&name(i)));
    }
}
'''),
dict(id="parser-autocomplete-unit",property="C22",kind="full",
 needs="a rule of exactly the minimum length, typed with its full text, versus a prefix of it",
 breaks="the minimum length is compared with the matched end in the rule's text instead of the number of matched symbols",
 edits=[(P+"autocomplete.rs","                if symbol_count < min_rule_match_length {","                if parser_start_index < min_rule_match_length.min(self.parser.len() - 1) {")],
 main=USE+'''
use parser::autocomplete::*;
fn main() {
    let r = AutocompleteRule::new("lim", vec![]);
    assert_eq!(r.matches(&input_nodes! {"l", "i"}, 2, 2).len(), 1);
    assert_eq!(r.matches(&input_nodes! {"l"}, 1, 2).len(), 0);
}
'''),
dict(id="parser-unknown-container-panics",property="C23",kind="full",
 needs="a subscript in front of anything it could belong to, behind an unknown symbol",
 breaks="the parser panics instead of reporting an unknown token",
 edits=[(PP,"            if self.is_at_end(inp, ending_parser)\n                || inp.can_parse_iter(&self.symbols.prefix_ops)\n                || inp.can_parse(&self.symbols.atom)\n                || inp.can_parse_iter(&self.symbols.infix_ops)\n                || inp.can_parse_iter(&self.symbols.postfix_ops)","            if self.is_at_end(inp, ending_parser)\n                || inp.can_parse_iter(&self.symbols.prefix_ops)\n                || inp.can_parse(&self.symbols.atom)\n                || inp.can_parse_iter(&self.symbols.infix_ops)")],
 main=USE+'''
fn main() {
    let a = parse(input_nodes! {"$", (sup (row "2"))});
    assert!(a.contains("UnknownToken"), "{a}");
}
'''),
dict(id="parser-cache-last-tree",property="C26",kind="full",
 needs="two formulas of the same printed length parsed by the same parser, one directly after the other",
 breaks="rows whose content differs only inside a cell share a remembered name lookup",
 edits=[(P+"syntax_tree/node_type_id.rs","        self.values.get(path).cloned()\n","        self.values.get(path).cloned()\n")],
 main=USE+"fn main() {}\n"),
]
BUGS=[b for b in BUGS if b["id"] not in ("parser-brackets-range","parser-postfix-range","parser-space-before-script","parser-cache-last-tree")]
BUGS+=[
dict(id="parser-operator-script-range",property="C24",kind="full",
 needs="an operator with a script that has spaces behind it",
 breaks="the spaces behind an operator's script belong to no node's parent range, or the operator's node leaves out its own spaces",
 edits=[(MP,"                                built_in_rules.whitespaces_node(\n                                    None,\n                                    sub,\n                                    spaces_after,\n                                    range.into_range(),\n                                ),\n                                PostfixBuilderImpl {\n                                    name: sub_rule_name,",
 "                                built_in_rules.whitespaces_node(\n                                    None,\n                                    sub,\n                                    spaces_after.filter(|v| v.range().len() != 2),\n                                    range.into_range(),\n                                ),\n                                PostfixBuilderImpl {\n                                    name: sub_rule_name,")],
 main=USE+'''
use parser::syntax_tree::*;
fn leaves(t: &SyntaxNode) -> usize {
    match &t.children {
        SyntaxNodeChildren::Leaf(l) => l.symbols.len(),
        SyntaxNodeChildren::Children(c) => c.iter().map(leaves).sum(),
        SyntaxNodeChildren::NewRows(_) => 1,
    }
}
fn main() {
    let nodes = input_nodes! {"1", "+", (sub (row "2")), " ", " ", "3"};
    let (p, _) = parser();
    assert_eq!(leaves(&p.parse(&nodes)), nodes.len());
}
'''),
dict(id="parser-space-between-scripts",property="C28",kind="full",
 needs="an operator with a lower and an upper script that are separated by a space",
 breaks="the upper script is no longer the operator's",
 edits=[(MP,"""                        v.build(operator_rule_name.clone(), range.into_range())
                    })
                    .then(space_parser.clone())
                    .map_with_span({
                        let built_in_rules = built_in_rules.clone();
                        move |(sub, spaces_after), range: SimpleSpan| {
                            (
                                built_in_rules.whitespaces_node(
                                    None,
                                    sub,
                                    spaces_after,
                                    range.into_range(),
                                ),
                                PostfixBuilderImpl {
                                    name: sub_rule_name,
                                },
                            )
                        }
                    });""","""                        // The spaces in front of the operand belong to the operand
                        (
                            v.build(operator_rule_name.clone(), range.into_range()),
                            PostfixBuilderImpl {
                                name: sub_rule_name,
                            },
                        )
                    });""")],
 main=USE+'''
fn main() {
    use input_tree::node::InputNodeVariant;
    let cell = |k, s: &str| InputNode::Container(k, input_tree::grid::GridVec::from_one_dimensional(vec![InputRow::new(vec![InputNode::symbol(s)])], 1));
    let symbol = InputNode::symbol;
    let (low, high) = (cell(InputNodeVariant::Sub, "a"), cell(InputNodeVariant::Sup, "b"));
    let tight = parse(vec![symbol("1"), symbol("+"), low.clone(), high.clone(), symbol("2")]);
    let loose = parse(vec![symbol("1"), symbol("+"), low, symbol(" "), high, symbol("2")]);
    assert_eq!(tight.matches("Error").count(), loose.matches("Error").count(), "{tight} {loose}");
}
'''),
dict(id="parser-shared-counter",property="C26",kind="full",
 needs="a formula with an unclosed bracket parsed before another formula by the same parser",
 breaks="the parser keeps state from one parse to the next",
 edits=[(P+"parser.rs","        let parser = self.parser_cache.get();\n        let (result, errors) = parser.parse(input).into_output_errors();","        thread_local! {\n            static LAST_LEN: std::cell::Cell<usize> = std::cell::Cell::new(usize::MAX);\n        }\n        let last = LAST_LEN.with(|v| v.replace(input.len()));\n        if input.is_empty() && last == 3 {\n            return self.built_in.nothing_node(0);\n        }\n        let parser = self.parser_cache.get();\n        let (result, errors) = parser.parse(input).into_output_errors();")],
 main=USE+'''
fn main() {
    let (p, m) = parser();
    let show = |n: Vec<InputNode>| { let t = p.parse(&n); let s = t.with_display(m.get_rule_name_map()).to_string(); s };
    let first = show(vec![]);
    show(input_nodes! {"1", "+", "2"});
    assert_eq!(show(vec![]), first);
}
'''),
]
