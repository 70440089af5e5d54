C="aftermath-core/caret/src/"
USE='''#![allow(unused)]
use std::rc::Rc;
use caret::{caret::*, math_editor::*, primitive::*};
use input_tree::direction::*;
use input_tree::focus::*;
use input_tree::node::InputNode;
use input_tree::row::*;
use input_tree::{input_node, input_nodes, input_row};
use parser::{parse_modules::*, parser::MathParser, rule_collections::{arithmetic_rules::*, built_in_rules::*, calculus_rules::*,
    collections_rules::*, comparison_rules::*, core_rules::*, function_rules::*, logic_rules::*, string_rules::*}};
fn parser() -> (MathParser, ParseModules) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let list: Vec<Rc<dyn parser::parse_module::ParseModule>> = vec![
        b.clone(), Rc::new(CoreRules::new(&mut m, &b)), Rc::new(ArithmeticRules::new(&mut m)), Rc::new(CalculusRules::new(&mut m)),
        Rc::new(CollectionsRules::new(&mut m)), Rc::new(ComparisonRules::new(&mut m)), Rc::new(FunctionRules::new(&mut m, &b)),
        Rc::new(LogicRules::new(&mut m)), Rc::new(StringRules::new(&mut m))];
    (MathParser::new(ParseModuleCollection::new(b, list)), m)
}
fn p(path: &[(usize, usize)], off: usize) -> MinimalInputRowPosition {
    MinimalInputRowPosition { row_indices: RowIndices::new(path.iter().map(|x| RowIndex(x.0, x.1)).collect()), offset: Offset(off) }
}
fn r(path: &[(usize, usize)], s: usize, e: usize) -> MinimalInputRowRange {
    MinimalInputRowRange { row_indices: RowIndices::new(path.iter().map(|x| RowIndex(x.0, x.1)).collect()), start: Offset(s), end: Offset(e) }
}
fn editor(nodes: Vec<InputNode>) -> MathEditor {
    let mut e = MathEditor::new(Rc::new(parser().0));
    e.splice_at_range(r(&[], 0, 0), nodes);
    e
}
fn at(e: &mut MathEditor, q: MinimalInputRowPosition) {
    e.start_selection(q, MoveMode::Char);
    e.finish_selection();
}
fn text(e: &MathEditor) -> String { e.get_input_tree().to_string() }
fn sel(e: &MathEditor) -> MinimalCaretSelection { e.get_caret().remove(0) }
fn syms(s: &str) -> Vec<String> { s.chars().map(|c| c.to_string()).collect() }
fn parse(nodes: Vec<InputNode>) -> String {
    let (p, m) = parser();
    let t = p.parse(&nodes);
    let s = t.with_display(m.get_rule_name_map()).to_string();
    s
}
'''
ME=C+"math_editor.rs"; MV=C+"primitive/movement.rs"; PE=C+"primitive/primitive_edit.rs"; CE=C+"primitive/caret_edit.rs"; UR=C+"undo_redo_manager.rs"; AC=C+"autocomplete.rs"; CA=C+"caret.rs"
BUGS=[
dict(id="editor-undo-multi-edit",property="C19",kind="full",
 needs="an undone command that consists of several basic edits, e.g. typing over a selection or dissolving a fraction",
 breaks="the inverse edits run in the original order and undo does not bring back the formula",
 edits=[(CE,"edits: self.edits.iter().rev().map(|edit| edit.inverse()).collect(),","edits: self.edits.iter().map(|edit| edit.inverse()).collect(),")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {"a", (fraction (row "x"), (row "y")), "b"});
    let before = text(&e);
    at(&mut e, p(&[(1, 1)], 0));
    e.remove_at_caret(primitive_edit::CaretRemoveMode::Left, MoveMode::Char);
    assert_ne!(text(&e), before);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.undo()));
    assert_eq!(text(&e), before);
}
'''),
dict(id="editor-redo-survives-edit",property="C19",kind="full",
 needs="undo everything, then a new edit, then redo",
 breaks="redo applies an edit of the abandoned history after a new edit",
 edits=[(UR,"        self.undo_stack.push(action);\n        self.redo_stack = Vec::new();","        if !self.undo_stack.is_empty() {\n            self.redo_stack = Vec::new();\n        }\n        self.undo_stack.push(action);")],
 main=USE+'''
fn main() {
    let mut e = MathEditor::new(Rc::new(parser().0));
    e.insert_at_caret(syms("1"));
    e.undo();
    e.insert_at_caret(syms("2"));
    let before = text(&e);
    e.redo();
    assert_eq!(text(&e), before);
}
'''),
dict(id="editor-stale-tree-after-redo",property="C20",kind="full",
 needs="the syntax tree was asked for between an undo and the matching redo",
 breaks="after redo the syntax tree is the one of the undone formula",
 edits=[(ME,"        let action = self.undo_stack.redo()?;\n        self.apply_action(action);","        let action = self.undo_stack.redo()?;\n        let parsed = self.parsed.take();\n        self.apply_action(action);\n        self.parsed = parsed;")],
 main=USE+'''
fn main() {
    let m = parser().1;
    let mut e = editor(input_nodes! {"1"});
    at(&mut e, p(&[], 1));
    e.insert_at_caret(syms("+2"));
    e.undo();
    let _ = e.get_syntax_tree();
    e.redo();
    let t = e.get_syntax_tree().with_display(m.get_rule_name_map()).to_string();
    assert_eq!(t, parse(input_nodes! {"1", "+", "2"}));
}
'''),
dict(id="editor-flatten-caret",property="C17",kind="full",
 needs="Delete at the end of the first cell of a fraction or root, or Backspace at the start of the second, with other content in front of it in the row",
 breaks="the caret after dissolving a fraction ignores where the fraction was in its row",
 edits=[(PE,"position.offset = Offset(position.offset.0 + offset_in_node.0);","position.offset = Offset(position.offset.0.max(offset_in_node.0));")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {"a", (fraction (row "x", "y"), (row "z")), "b"});
    at(&mut e, p(&[(1, 1)], 0));
    e.remove_at_caret(primitive_edit::CaretRemoveMode::Left, MoveMode::Char);
    assert_eq!(e.get_input_tree(), &InputRow::new(input_nodes! {"a", "x", "y", "z", "b"}));
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[], 3, 3)));
}
'''),
dict(id="editor-delete-nonempty-table",property="C17",kind="full",
 needs="Backspace at the start of the first cell of a table whose own cell is empty while other cells are not",
 breaks="the table is dissolved and its other cells spill out although only an empty table may be deleted",
 edits=[(PE,"if at_edge && grid.values().all(|v| v.values.is_empty()) {","if at_edge && caret.row_focus.row().values.is_empty() {")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {"a", (table 2 x 1 (row), (row "z")), "b"});
    let before = text(&e);
    at(&mut e, p(&[(1, 0)], 0));
    e.remove_at_caret(primitive_edit::CaretRemoveMode::Left, MoveMode::Char);
    assert_eq!(text(&e), before);
}
'''),
dict(id="editor-up-skips-ancestor",property="C15",kind="full",
 needs="Up in a fraction inside a superscript (or a subscript and Down) whose own container has no cell in that direction",
 breaks="leaving the outer superscript from inside a nested container puts the caret behind it instead of in front",
 edits=[(MV,"                let offset = Offset(parent.index_in_parent());\n                return Some(InputRowPosition::new(parent.parent(), offset));",
 "                let offset = Offset(parent.index_in_parent());\n                let offset = if caret.row_focus.row_indices().len() > 1 {\n                    Offset(offset.0 + 1)\n                } else {\n                    offset\n                };\n                return Some(InputRowPosition::new(parent.parent(), offset));")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {(fraction (row "a", (sup (row "2"))), (row "z"))});
    at(&mut e, p(&[(0, 0), (1, 0)], 0));
    e.move_caret(Direction::Up, MoveMode::Char);
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[(0, 0)], 1, 1)));
}
'''),
dict(id="editor-down-wrong-column",property="C15",kind="full",
 needs="Up or Down in a table with more than one column inside another container's column",
 breaks="when the inner container has no row in that direction, the outer cell in the wrong place is entered",
 edits=[(MV,"            VerticalDirection::Down => xy.add_checked((0, 1), grid),","            VerticalDirection::Down => xy\n                .add_checked((0, 1), grid)\n                .or_else(|| xy.add_checked((1, 0), grid)),")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {(table 2 x 1 (row "a"), (row "b"))});
    at(&mut e, p(&[(0, 0)], 1));
    e.move_caret(Direction::Down, MoveMode::Char);
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[(0, 0)], 1, 1)));
}
'''),
dict(id="editor-left-into-tall-table",property="C14",kind="full",
 needs="Left from behind a table with more rows than columns",
 breaks="the caret enters a cell that is not the last one, so positions are skipped",
 edits=[(MV,"                        .child_at(grid.width() * grid.height() - 1)","                        .child_at((grid.width() * grid.height() - 1).min(grid.width() * grid.width()))")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {(table 1 x 3 (row "a"), (row "b"), (row "c"))});
    at(&mut e, p(&[], 1));
    e.move_caret(Direction::Left, MoveMode::Char);
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[(0, 2)], 1, 1)));
}
'''),
dict(id="editor-grid-selection-nested",property="C16",kind="full",
 needs="a selection between two cells of a table where one end lies in a container inside its cell, and the table itself is nested",
 breaks="the rectangle's corner is taken from the innermost container instead of the shared table",
 edits=[(CA,"        let start_row_index = start.row_indices().at(shared_range.row_indices().len());","        let start_row_index = start\n            .row_indices()\n            .at(end.row_indices().len().min(start.row_indices().len()) - 1)\n            .filter(|v| v.0 == shared_range.left_offset().0)\n            .or_else(|| start.row_indices().at(shared_range.row_indices().len()));")],
 main=USE+'''
fn main() {
    // the table is node 0; in its first cell there is a fraction that is node 0, too
    let mut e = editor(input_nodes! {(table 2 x 2 (row (fraction (row "x"), (row "y"))), (row "b"), (row (fraction (row "c"), (row))), (row "d"))});
    let tree_sel = |e: &mut MathEditor, a, b| { at(e, a); e.extend_selection(b); sel(e) };
    let flat = tree_sel(&mut e, p(&[(0, 0)], 0), p(&[(0, 2)], 0));
    let deep = tree_sel(&mut e, p(&[(0, 0), (0, 1)], 1), p(&[(0, 2), (0, 0)], 1));
    assert_eq!(flat, deep);
}
'''),
dict(id="editor-type-over-backward",property="C34",kind="full",
 needs="typing over a selection made from right to left",
 breaks="the caret ends up before the typed symbols instead of behind them",
 edits=[(PE,"            offset: if range.start < range.end {\n                range.end\n            } else {\n                range.start\n            },","            offset: if caret.start_position().offset <= caret.end_position().offset {\n                Offset(range.start.0.max(range.end.0))\n            } else {\n                Offset(range.start.0.min(range.end.0))\n            },")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {"1", "2", "3"});
    at(&mut e, p(&[], 3));
    e.extend_selection(p(&[], 1));
    e.insert_at_caret(syms("78"));
    assert_eq!(e.get_input_tree(), &InputRow::new(input_nodes! {"1", "7", "8"}));
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[], 3, 3)));
}
'''),
dict(id="editor-paste-drops-repeat",property="C21",kind="full",
 needs="copying a range of several nodes selected backward",
 breaks="copying a backward selection leaves out its last node",
 edits=[(ME,"            CaretSelection::Row(range) => range.values(),\n            CaretSelection::Grid(_range) => {\n                // Grid copying","            CaretSelection::Row(range) if range.start_position().offset > range.end_position().offset => {\n                let values = range.values();\n                &values[..values.len().max(2) - 1]\n            }\n            CaretSelection::Row(range) => range.values(),\n            CaretSelection::Grid(_range) => {\n                // Grid copying")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {"1", "2", "3"});
    at(&mut e, p(&[], 0));
    e.extend_selection(p(&[], 3));
    let forward = e.copy(SerializedDataType::JsonInputTree).unwrap();
    at(&mut e, p(&[], 3));
    e.extend_selection(p(&[], 0));
    assert_eq!(e.copy(SerializedDataType::JsonInputTree).unwrap(), forward);
}
'''),
dict(id="editor-autocorrect-other-row",property="C33",kind="full",
 needs="the caret leaves a completely typed token for a place with an offset inside the token's span but in another row",
 breaks="the token is not replaced, as the caret is taken to be still inside it",
 edits=[(ME,"        if autocomplete_range.contains(&caret_start_position) {","        if autocomplete_range.left_offset() <= caret_start_position.offset\n            && caret_start_position.offset <= autocomplete_range.right_offset()\n        {")],
 main=USE+'''
fn main() {
    for (cell, off) in [(0, 0), (0, 1)] {
        let mut e = editor(input_nodes! {"1", (fraction (row "2"), (row))});
        at(&mut e, p(&[], 1));
        e.insert_at_caret(syms(">="));
        // the fraction is node 3 now; go into it
        at(&mut e, p(&[(3, cell)], off));
        assert_eq!(e.get_input_tree(), &InputRow::new(input_nodes! {"1", "≥", (fraction (row "2"), (row))}));
    }
}
'''),
dict(id="editor-completion-range",property="C33",kind="full",
 needs="accepting a completion whose typed prefix is shorter than the caret's distance from the row start, chosen with the arrow keys among several",
 breaks="the replaced range is as long as the longest match instead of the selected one",
 edits=[(AC,"                    .saturating_sub(rule_match.input_match_length),","                    .saturating_sub(rule_match.input_match_length.max(self.matches[self.matches.len() - 1].input_match_length)),")],
 main=USE+'''
fn main() {
    // "li" offers lim, limsup, liminf with equal lengths; "in" offers infinity, integral.. ; "limin" offers liminf(5) and infinity(2)
    let mut e = MathEditor::new(Rc::new(parser().0));
    e.insert_at_caret(syms("1"));
    e.insert_at_caret(syms("limin"));
    for _ in 0..6 {
        let mut names = vec![];
        {
            let a = e.get_autocomplete().unwrap();
            let (i, m, _) = a.destructure();
            names.push((m[i].rule.result.clone(), m[i].input_match_length, m.len()));
        }
        let (result, len, _) = names.remove(0);
        e.finish_autocomplete(true);
        let all = input_nodes! {"1", "l", "i", "m", "i", "n"};
        let mut want = all[..6 - len].to_vec();
        want.extend(result);
        assert_eq!(e.get_input_tree(), &InputRow::new(want));
        e.undo();
        e.move_in_autocomplete(VerticalDirection::Down);
    }
}
'''),
dict(id="editor-select-left-panics",property="C18",kind="full",
 needs="Shift+Left at the very start of a row inside a container that is the first node of its row",
 breaks="the command underflows instead of leaving the container",
 edits=[(MV,"            Offset(parent.index_in_parent())\n        } else {","            Offset((parent.index_in_parent() + 1).checked_sub(1 + usize::from(caret.offset.0 == 0 && parent.clone().parent().offset_to_index(Offset(parent.index_in_parent()), HorizontalDirection::Left).is_none() && caret.row_focus.len() > 2)).expect(\"no place to go\"))\n        } else {")],
 main=USE+'''
fn main() {
    let mut e = editor(input_nodes! {(fraction (row "a", "b", "c"), (row))});
    at(&mut e, p(&[(0, 0)], 0));
    e.move_caret(Direction::Left, MoveMode::Char);
    assert_eq!(sel(&e), MinimalCaretSelection::Row(r(&[], 0, 0)));
}
'''),
]
