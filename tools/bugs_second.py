"""A second planted bug for the properties that had one."""
import os,runpy
H=os.path.dirname(os.path.abspath(__file__))
TREE=runpy.run_path(os.path.join(H,"bugs_tree.py"))["USE"]
FULL=runpy.run_path(os.path.join(H,"bugs_editor.py"))["USE"]
IT="aftermath-core/input_tree/src/"; C="aftermath-core/caret/src/"; P="aftermath-core/parser/src/"
SN=P+"syntax_tree/syntax_node.rs"
CFG='#[derive(Debug, Serialize, Deserialize)]\n#[cfg_attr(\n    feature = "wasm",\n    derive(tsify::Tsify),\n    tsify(into_wasm_abi, from_wasm_abi)\n)]\n'
ME=C+"math_editor.rs"; MV=C+"primitive/movement.rs"; MP=P+"math_parser.rs"
BUGS=[
dict(id="tree-insert-beside-equal",property="C01",
 needs="several equal nodes inserted directly in front of a node that equals them",
 breaks="one of the inserted nodes is taken for the one that is there already",
 edits=[(IT+"input_tree.rs","row.values.splice(start..start, values.iter().cloned());","let known = values.len() > 1 && values[0] == values[1] && row.values.get(start) == values.first();\n                row.values.splice(start..start, values.iter().skip(known as usize).cloned());")],
 main=TREE+'''
fn main() {
    let mut t = InputTree::new(input_row! { (row "b", "a") });
    t.apply_edit(&BasicEdit::Row(RowEdit { edit_type: EditType::Insert, position: p(&[], 1), values: input_nodes! {"a", "a"} }));
    assert_eq!(t.root, input_row! { (row "b", "a", "a", "a") });
}
'''),
dict(id="tree-delete-rows-twice",property="C02",
 needs="several rows deleted at once, from a row whose number is no multiple of theirs",
 breaks="rows further up than the ones that the edit names are taken out",
 edits=[(IT+"input_tree.rs","(EditType::Delete, GridDirection::Row) => {\n                        assert!(values.width() == old_size.0);\n                        new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));","(EditType::Delete, GridDirection::Row) => {\n                        assert!(values.width() == old_size.0);\n                        let before = row_or_column.0 - row_or_column.0 % values.height().max(1);\n                        new_grid.extend(old_grid.by_ref().take(values.width() * before));")],
 main=TREE+'''
fn main() {
    let mut t = InputTree::new(input_row! { (row (table 2 x 4 (row "a"), (row "b"), (row "c"), (row "d"), (row "e"), (row "f"), (row "g"), (row "h"))) });
    t.apply_edit(&BasicEdit::Grid(GridEdit {
        edit_type: EditType::Delete,
        element_indices: ElementIndices { row_indices: Default::default(), index: 0 },
        direction: GridDirection::Row,
        row_or_column: Offset(1),
        values: GridVec::from_one_dimensional(vec![input_row! { (row "c") }, input_row! { (row "d") }, input_row! { (row "e") }, input_row! { (row "f") }], 2),
    }));
    assert_eq!(t.root, input_row! { (row (table 2 x 2 (row "a"), (row "b"), (row "g"), (row "h"))) });
}
'''),
dict(id="tree-undo-rotated",property="C03",
 needs="undoing the deletion of several nodes of which the first and the last are equal",
 breaks="the deleted nodes come back in another order",
 edits=[(IT+"editing/basic_edit.rs","        RowEdit {\n            edit_type: self.edit_type.inverse(),\n            ..self.clone()\n        }","        let mut values = self.values.clone();\n        if values.len() > 2 && values.first() == values.last() {\n            values.rotate_left(1);\n        }\n        RowEdit {\n            edit_type: self.edit_type.inverse(),\n            position: self.position.clone(),\n            values,\n        }")],
 main=TREE+'''
fn main() {
    let mut t = InputTree::new(input_row! { (row "x", "a", "b", "a", "y") });
    let e = BasicEdit::Row(RowEdit { edit_type: EditType::Delete, position: p(&[], 1), values: input_nodes! {"a", "b", "a"} });
    t.apply_edit(&e);
    t.apply_edit(&e.inverse());
    assert_eq!(t.root, input_row! { (row "x", "a", "b", "a", "y") });
}
'''),
dict(id="tree-replace-by-equal",property="C04",
 needs="a range replaced by nodes that equal what is in it",
 breaks="the reported place is the replaced range instead of the position behind the new nodes",
 edits=[(IT+"editing/basic_edit.rs","        let (mut edits, _) = BasicEdit::remove_range(range);","        if !values.is_empty() && range.values() == values.as_slice() {\n            return (vec![], range.to_minimal());\n        }\n        let (mut edits, mut _at) = BasicEdit::remove_range(range);")],
 main=TREE+'''
fn main() {
    let t = InputTree::new(input_row! { (row "a", "b", "c") });
    let at = |s: usize, e: usize| InputRowRange::new(t.root_focus(), Offset(s), Offset(e));
    let (_, other) = BasicEdit::replace_range(&at(2, 1), input_nodes! {"x"});
    let (_, same) = BasicEdit::replace_range(&at(2, 1), input_nodes! {"b"});
    assert_eq!(other, same);
    let (_, other) = BasicEdit::replace_range(&at(0, 2), input_nodes! {"x", "y"});
    let (_, same) = BasicEdit::replace_range(&at(0, 2), input_nodes! {"a", "b"});
    assert_eq!(other, same);
}
'''),
dict(id="tree-rebase-other-cell",property="C05",
 needs="a position in one cell of a container and an edit in another cell of it",
 breaks="edits in a neighbouring cell shift positions although the cells have nothing to do with each other",
 edits=[(IT+"focus/row_range.rs","        if !self.row_indices.starts_with(row_indices) {\n            return;","        let below = row_indices.len() <= self.row_indices.len()\n            && row_indices.iter().zip(self.row_indices.iter()).all(|(a, b)| a.0 == b.0);\n        if !below {\n            return;")],
 main=TREE+'''
fn main() {
    // "x" before a container in the second cell; the edit is in the first cell
    let mut at = p(&[(0, 1), (1, 0)], 1);
    at.apply_edit(&BasicEdit::Row(RowEdit { edit_type: EditType::Insert, position: p(&[(0, 0)], 0), values: input_nodes! {"a"} }));
    assert_eq!(at, p(&[(0, 1), (1, 0)], 1));
}
'''),
dict(id="tree-rebase-delete-exact",property="C06",
 needs="the deletion of exactly what a range spans",
 breaks="the end of the range stays where it was, so that the range spans what was behind it",
 edits=[(IT+"focus/row_range.rs","if new_offset <= self.end {\n                        self.end","if new_offset <= self.end && !(new_offset == self.start && old_offset == self.end) {\n                        self.end")],
 main=TREE+'''
fn main() {
    let mut m = r(&[], 1, 3);
    m.apply_edit(&BasicEdit::Row(RowEdit { edit_type: EditType::Delete, position: p(&[], 1), values: input_nodes! {"b", "c"} }));
    assert_eq!(m, r(&[], 1, 1));
}
'''),
dict(id="tree-contains-backward",property="C07",
 needs="asking a range made from right to left whether it contains a position",
 breaks="a backward range contains nothing",
 edits=[(IT+"focus/row_range.rs","&self.left_position() <= position && position <= &self.right_position()","&self.start_position() <= position && position <= &self.end_position()")],
 main=TREE+'''
fn main() {
    let t = InputTree::new(input_row! { (row "a", "b", "c") });
    let m = InputRowPosition::from_minimal(t.root_focus(), &p(&[], 2));
    assert!(InputRowRange::new(t.root_focus(), Offset(1), Offset(3)).contains(&m));
    assert!(InputRowRange::new(t.root_focus(), Offset(3), Offset(1)).contains(&m));
}
'''),
dict(id="tree-span-shared-later",property="C08",
 needs="two positions whose paths differ at first and agree at a later step",
 breaks="the shared address is made up of steps that do not follow each other",
 edits=[(IT+"row.rs",".take_while(|(a, b)| a == b)",".filter(|(a, b)| a == b)")],
 main=TREE+'''
fn main() {
    let t = InputTree::new(input_row! { (row (frac (row (sup (row "a"))), (row (sup (row "b"))))) });
    let at = |m: &MinimalInputRowPosition| InputRowPosition::from_minimal(t.root_focus(), m);
    assert_eq!(t.range_from_positions(&at(&p(&[(0, 0), (0, 0)], 0)), &at(&p(&[(0, 1), (0, 0)], 1))).to_minimal(), r(&[], 0, 1));
}
'''),
dict(id="tree-focus-end-of-row",property="C09",
 needs="asking for the node to the right of the very end of a row",
 breaks="there is an index behind the last node",
 edits=[(IT+"row.rs","if offset.0 >= self.len() {\n                    None","if offset.0 > self.len() {\n                    None")],
 main=TREE+'''
use input_tree::direction::HorizontalDirection;
fn main() {
    let t = InputTree::new(input_row! { (row "a", "b") });
    assert_eq!(t.root_focus().offset_to_index(Offset(1), HorizontalDirection::Right), Some(1));
    assert_eq!(t.root_focus().offset_to_index(Offset(2), HorizontalDirection::Right), None);
}
'''),
dict(id="tree-index-other-grid",property="C10",
 needs="an index made for a grid of another width",
 breaks="an index of a wider grid is accepted and denotes another cell",
 edits=[(IT+"grid/index2d.rs","if self.width != width || self.x >= width || self.y >= height {","if self.width < width || self.x >= width || self.y >= height {")],
 main=TREE+'''
fn main() {
    let g = GridVec::from_one_dimensional((0..6).collect::<Vec<i32>>(), 2);
    assert_eq!(g.get(Index2D::new(1, 1, 2)), Some(&3));
    assert_eq!(g.get(Index2D::new(0, 1, 3)), None);
}
'''),
dict(id="tree-view-whole-width",property="C11",
 needs="a view over every column of a grid with several columns and rows, but not over every row",
 breaks="the view is one column too narrow",
 edits=[(IT+"grid/grid_view.rs","    fn size(&self) -> (usize, usize) {\n        self.range.size()\n    }\n\n    fn get(","    fn size(&self) -> (usize, usize) {\n        let (width, height) = self.range.size();\n        if height < self.grid.height() && height > 1 && width > 1 {\n            (width.min(self.grid.width() - 1), height)\n        } else {\n            (width, height)\n        }\n    }\n\n    fn get(")],
 main=TREE+'''
fn main() {
    let g = GridVec::from_one_dimensional((0..9).collect::<Vec<i32>>(), 3);
    let v = g.get_view(GridRectangle::from_indices_inclusive(Index2D::new(0, 1, 3), Index2D::new(2, 2, 3), &g));
    assert_eq!(v.size(), (3, 2));
}
'''),
dict(id="tree-print-table-shape",property="C12",
 needs="printing two tables of the same cells, one wide and one high",
 breaks="a table with more rows than columns prints like its counterpart with more columns than rows",
 edits=[(IT+"grid.rs",'write!(f, "{}x{}", self.width(), self.height())?;','let (w, h) = self.size();\n        if w.min(h) > 1 {\n            write!(f, "{}x{}", w.max(h), w.min(h))?;\n        } else {\n            write!(f, "{}x{}", w, h)?;\n        }')],
 main=TREE+'''
fn main() {
    let a = input_row! { (row (table 3 x 2 (row), (row), (row), (row), (row), (row))) };
    let b = input_row! { (row (table 2 x 3 (row), (row), (row), (row), (row), (row))) };
    assert_ne!(a.to_string(), b.to_string());
}
'''),
dict(id="tree-index-width-lost",property="C13",
 needs="saving and loading the index of a cell",
 breaks="the loaded index has forgotten the width of its grid",
 edits=[(IT+"grid/index2d.rs","    pub y: usize,\n    width: usize,","    pub y: usize,\n    #[serde(skip)]\n    width: usize, // known from the grid")],
 main=TREE+'''
fn main() {
    let i = Index2D::new(1, 2, 3);
    let text = serde_json::to_string(&i).unwrap();
    assert_eq!(serde_json::from_str::<Index2D>(&text).unwrap(), i);
}
'''),
dict(id="editor-left-over-empty-cell",property="C14",kind="full",
 needs="Left at the start of a cell whose left neighbour in the same container is empty",
 breaks="the caret leaves the container instead of visiting the empty cell",
 edits=[(MV,"parent.clone().child_at(adjacent_index).ok());","parent.clone().child_at(adjacent_index).ok())\n            .filter(|child| child.len() > 0 || direction == HorizontalDirection::Right);")],
 main=FULL+'''
fn main() {
    let mut e = editor(input_nodes! {"a", (root (row), (row "x"))});
    at(&mut e, p(&[(1, 1)], 0));
    e.move_caret(Direction::Left, MoveMode::Char);
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[(1, 0)], 0, 0)));
}
'''),
dict(id="editor-select-forgets-start",property="C16",kind="full",
 needs="extending a selection with Shift and an arrow out of a container and back again",
 breaks="where the selection was begun is forgotten as soon as it covers the whole container",
 edits=[(ME,"                    start_position: builder.caret.start_position.clone(),\n                    end_position: new_end.to_minimal(),","                    start_position: range.start_position().to_minimal(),\n                    end_position: new_end.to_minimal(),")],
 main=FULL+'''
fn main() {
    let mut e = editor(input_nodes! {(fraction (row "x", "y"), (row)), "b"});
    at(&mut e, p(&[(0, 1)], 0));
    e.select_with_caret(Direction::Right, MoveMode::Char);
    e.select_with_caret(Direction::Right, MoveMode::Char);
    e.select_with_caret(Direction::Left, MoveMode::Char);
    e.select_with_caret(Direction::Left, MoveMode::Char);
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[(0, 1)], 0, 0)));
}
'''),
dict(id="editor-accept-nothing-panics",property="C18",kind="full",
 needs="accepting a completion when none is offered any more",
 breaks="the editor stops",
 edits=[(ME,"        let autocomplete = self.get_autocomplete()?;\n        let selected_autocomplete","        let autocomplete = self\n            .get_autocomplete()\n            .expect(\"only an offered completion can be accepted\");\n        let selected_autocomplete")],
 main=FULL+'''
fn main() {
    let mut e = editor(input_nodes! {"a", "l", "i"});
    at(&mut e, p(&[], 3));
    e.open_autocomplete();
    e.move_caret(Direction::Left, MoveMode::Char);
    e.move_caret(Direction::Left, MoveMode::Char);
    e.finish_autocomplete(true);
    assert_eq!(text(&e), editor(input_nodes! {"a", "l", "i"}).get_input_tree().to_string());
}
'''),
dict(id="editor-stale-tree-first-undo",property="C20",kind="full",
 needs="the syntax tree is asked for before the very first change is undone",
 breaks="undoing the first change keeps the syntax tree of the changed formula",
 edits=[(ME,"                self.parsed = None;\n            }","                if self.undo_stack.can_undo() {\n                    self.parsed = None;\n                }\n            }")],
 main=FULL+'''
fn main() {
    let mut e = editor(input_nodes! {"1", "+", "2"});
    e.get_syntax_tree();
    e.undo();
    assert_eq!(e.get_syntax_tree().range().len(), e.get_input_tree().len());
}
'''),
dict(id="editor-paste-nothing",property="C21",kind="full",
 needs="pasting an empty selection over a selection",
 breaks="the selection stays instead of being replaced by nothing",
 edits=[(ME,"        let nodes = deserialize_input_nodes(data, data_type)?;","        let nodes = deserialize_input_nodes(data, data_type)?;\n        if nodes.is_empty() {\n            return Ok(());\n        }\n        let nodes: Vec<_> = nodes.into_iter().collect();")],
 main=FULL+'''
fn main() {
    let mut e = editor(input_nodes! {"a", "b", "c"});
    at(&mut e, p(&[], 1));
    let nothing = e.copy(serialization::SerializedDataType::JsonInputTree).unwrap();
    e.extend_selection(p(&[], 3));
    e.paste(nothing, Some(serialization::SerializedDataType::JsonInputTree)).unwrap();
    assert_eq!(text(&e), text(&editor(input_nodes! {"a"})));
}
'''),
dict(id="parser-completion-case",property="C22",kind="full",
 needs="a word that equals a rule's text except for a capital letter that is not its last",
 breaks="completions are offered for words in capital letters, too",
 edits=[(P+"autocomplete.rs","if self.parser[0..parser_current_index].ends_with(symbol) {","if self.parser[0..parser_current_index].to_ascii_lowercase().ends_with(&symbol.to_ascii_lowercase()) {")],
 main=FULL+'''
use parser::autocomplete::AutocompleteMatcher;
fn main() {
    let (p, _) = parser();
    assert!(!p.matches(&input_nodes! {"l", "i", "m"}, 3, 2).is_empty());
    assert!(p.matches(&input_nodes! {"L", "I", "m"}, 3, 2).is_empty());
}
'''),
dict(id="parser-string-escape-panics",property="C23",kind="full",
 needs="a backslash in front of a fraction, behind an opened quote",
 breaks="the parser panics instead of reading the quote as an unknown symbol",
 edits=[(P+"rule_collections/string_rules.rs",".then(select! {\n                                InputNode::Symbol(a) => a,\n                            })",".then(select! {\n                                InputNode::Symbol(a) => a,\n                                InputNode::Container(..) => panic!(\"a backslash escapes a symbol\"),\n                            })")],
 main=FULL+'''
fn main() {
    parse(input_nodes! {"\\"", "a", "\\\\", "b", "\\""});
    parse(input_nodes! {"\\"", "\\\\", (sup (row)), "\\""});
}
'''),
dict(id="parser-memo-by-text",property="C26",kind="full",
 needs="two formulas one after the other with the same text that is cut into symbols at different places",
 breaks="the parser returns the tree of the formula before, because the two look alike",
 edits=[(SN,CFG+k,CFG.replace("(Debug,","(Debug, Clone,")+k) for k in ("pub struct SyntaxNode {","pub enum SyntaxNodeChildren {","pub struct SyntaxLeafNode {")]+
       [(P+"parser.rs","    autocomplete_rules: Vec<AutocompleteRule>,\n}","    autocomplete_rules: Vec<AutocompleteRule>,\n    last: std::cell::RefCell<Option<(String, SyntaxNode)>>,\n}"),
        (P+"parser.rs","            built_in,\n            autocomplete_rules,\n        }","            built_in,\n            autocomplete_rules,\n            last: Default::default(),\n        }"),
        (P+"parser.rs","        let parser = self.parser_cache.get();\n","        let text: String = input\n            .iter()\n            .map(|n| match n {\n                InputNode::Symbol(s) => s.clone(),\n                n => n.to_string(),\n            })\n            .collect();\n        if let Some((last, tree)) = &*self.last.borrow() {\n            if *last == text {\n                return tree.clone();\n            }\n        }\n        let parser = self.parser_cache.get();\n"),
        (P+"parser.rs","        result.unwrap_or_else(|| self.built_in.nothing_node(0))\n","        let tree = result.unwrap_or_else(|| self.built_in.nothing_node(0));\n        *self.last.borrow_mut() = Some((text, tree.clone()));\n        tree\n")],
 main=FULL+'''
fn main() {
    let (p, _) = parser();
    let one = input_nodes! {"e\\u{301}"};
    let two = input_nodes! {"e", "\\u{301}"};
    p.parse(&one);
    assert_eq!(format!("{:?}", p.parse(&two)), format!("{:?}", parser().0.parse(&two)));
}
'''),
dict(id="parser-cell-of-spaces",property="C27",kind="full",
 needs="a cell with nothing but spaces in it",
 breaks="a cell of spaces is read like an empty one",
 edits=[(P+"rule_collections/built_in_rules.rs","let parsed = p.parse(&row.values);","let blank = row.values.iter().all(|n| matches!(n, InputNode::Symbol(s) if s == \" \"));\n                            let parsed = p.parse(if blank { &[] } else { &row.values[..] });")],
 main=FULL+'''
fn main() {
    let (p, _) = parser();
    let alone = p.parse(&input_nodes! {" "});
    let row = input_nodes! {(sup (row " "))};
    let inside = p.parse(&row);
    fn longest(n: &parser::syntax_tree::SyntaxNode) -> usize {
        match &n.children {
            parser::syntax_tree::SyntaxNodeChildren::NewRows(g) => g.values().map(|v| v.range().len()).max().unwrap(),
            parser::syntax_tree::SyntaxNodeChildren::Children(c) => c.iter().map(longest).max().unwrap_or(0),
            _ => 0,
        }
    }
    assert_eq!(alone.range().len(), longest(&inside));
}
'''),
dict(id="parser-space-behind-scripts",property="C28",kind="full",
 needs="an operator with an upper script, a space behind it, and nothing more",
 breaks="the space behind the script is taken for the operator's operand",
 edits=[(MP,"v.build(operator_rule_name.clone(), range.into_range())\n                    })\n                    .then(space_parser.clone())\n                    .map_with_span({\n                        let built_in_rules = built_in_rules.clone();\n                        move |(sup,","v.build(operator_rule_name.clone(), range.into_range())\n                    })\n                    .then(no_space())\n                    .map_with_span({\n                        let built_in_rules = built_in_rules.clone();\n                        move |(sup,"),(MP,"pub struct CachedMathParser {","fn no_space<'a>() -> impl Parser<'a, ParserInput<'a>, Option<SyntaxNode>, BasicParserExtra> + Clone {\n    chumsky::primitive::empty().map(|_| None)\n}\n\npub struct CachedMathParser {")],
 main=FULL+'''
fn main() {
    // the space does not change what is missing behind the operator
    for t in [input_nodes! {"1", "+", (sup (row "2"))}, input_nodes! {"1", "+", (sup (row "2")), " "}, input_nodes! {"1", "+", (sub (row "2")), (sup (row "2")), " "}] {
        let tree = parse(t);
        assert!(tree.contains("Error::MissingToken") && !tree.contains("Error::UnknownToken"), "{tree}");
    }
}
'''),
dict(id="parser-name-copied",property="C29",kind="full",
 needs="asking which rule a lower limit is",
 breaks="two different rules share one name, and a name that should be there is missing",
 edits=[(P+"rule_collections/calculus_rules.rs","Self::rule_name(\"LimInf\")","Self::rule_name(\"LimSup\")")],
 main=FULL+'''
fn main() {
    assert_ne!(parse(input_nodes! {"l", "i", "m", "i", "n", "f", "x"}).split(' ').next().map(|s| s.to_string()), parse(input_nodes! {"l", "i", "m", "s", "u", "p", "x"}).split(' ').next().map(|s| s.to_string()));
}
'''),
dict(id="editor-splice-backward-caret",property="C34",kind="full",
 needs="a range made from right to left replaced while nodes are selected",
 breaks="the selection shrinks to its start",
 edits=[(ME,"        caret.end_position.apply_edits(&basic_edit);","        if range.start <= range.end {\n            caret.end_position.apply_edits(&basic_edit);\n        } else {\n            caret.end_position = caret.start_position.clone();\n        }")],
 main=FULL+'''
fn main() {
    let run = |s, t| {
        let mut e = editor(input_nodes! {"a", "b", "c", "d"});
        at(&mut e, p(&[], 2));
        e.extend_selection(p(&[], 4));
        e.splice_at_range(r(&[], s, t), input_nodes! {"x", "y"});
        sel(&e)
    };
    assert_eq!(run(0, 1), run(1, 0));
}
'''),
]
