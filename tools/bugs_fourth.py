# planted bugs that need large formulas, long histories or rarely used entry points
import os,runpy
H=os.path.dirname(os.path.abspath(__file__))
TREE=runpy.run_path(os.path.join(H,"bugs_tree.py"))["USE"]
FULL=runpy.run_path(os.path.join(H,"bugs_editor.py"))["USE"]
RO="aftermath-core/input_tree/src/row.rs"; RR="aftermath-core/input_tree/src/focus/row_range.rs"
CA="aftermath-core/caret/src/caret.rs"; UR="aftermath-core/caret/src/undo_redo_manager.rs"
BUGS=[
dict(id="editor-caret-end-stale",property="C16",kind="full",
 needs="a caret whose end is moved by itself, asked for its selection afterwards",
 breaks="the selection is the one of the end before",
 edits=[(CA,"""        self.end_position = position;
        self.selection =
            CaretSelection::from_positions(self.tree, &self.start_position, &self.end_position);""","""        self.selection =
            CaretSelection::from_positions(self.tree, &self.start_position, &self.end_position);
        self.end_position = position;""")],
 main=FULL+'''
use input_tree::input_tree::InputTree;
fn main() {
    let t = InputTree::new(input_row! { (row "a", "b", "c", "d") });
    let at = |o: usize| InputRowPosition::from_minimal(t.root_focus(), &p(&[], o));
    for (a, b, c) in [(0, 1, 3), (2, 4, 0), (1, 1, 2)] {
        let mut caret = Caret::from_minimal(&t, &MinimalCaret { start_position: p(&[], a), end_position: p(&[], b) });
        caret.set_end_position(at(c));
        let want = Caret::from_minimal(&t, &MinimalCaret { start_position: p(&[], a), end_position: p(&[], c) });
        assert_eq!(format!("{:?}", caret.selection().to_minimal()), format!("{:?}", want.selection().to_minimal()));
    }
}
'''),
dict(id="editor-history-capped",property="C19",kind="full",
 needs="more than 256 changes, all of them undone",
 breaks="the oldest changes can no longer be undone, the initial formula is not reached",
 edits=[(UR,"        self.undo_stack.push(action);\n        self.redo_stack = Vec::new();","        self.undo_stack.push(action);\n        if self.undo_stack.len() > 256 {\n            self.undo_stack.remove(0);\n        }\n        self.redo_stack = Vec::new();")],
 main=FULL+'''
fn main() {
    for n in [1, 10, 100, 255, 256, 257, 300] {
        let mut e = MathEditor::new(Rc::new(parser().0));
        let before = text(&e);
        for _ in 0..n {
            e.insert_at_caret(syms("x"));
        }
        for _ in 0..n {
            e.undo();
        }
        assert_eq!(text(&e), before, "{n} changes");
    }
}
'''),
dict(id="tree-order-wide-rows",property="C07",
 needs="positions in one row that is longer than 255 nodes, on both sides of that offset",
 breaks="the order of the positions is computed in bytes",
 edits=[(RO,"            self_offset.0 * 2\n","            (self_offset.0 as u8 as usize) * 2\n"),(RO,"            other_offset.0 * 2\n","            (other_offset.0 as u8 as usize) * 2\n")],
 main=TREE+'''
fn main() {
    let values: Vec<_> = (0..400).map(|i| InputNode::symbol(format!("{i}"))).collect();
    let t = InputTree::new(InputRow::new(values));
    let at = |o: usize| InputRowPosition::from_minimal(t.root_focus(), &p(&[], o));
    for i in 0..=400 {
        for j in [0, 10, 255, 256, 257, 399, 400] {
            assert_eq!(at(i).partial_cmp(&at(j)), i.partial_cmp(&j), "{i} against {j}");
        }
    }
}
'''),
dict(id="tree-rebase-wide-row",property="C05",
 needs="a position inside of a container, in front of which nodes are inserted so that the container moves behind the 128th place",
 breaks="the position is carried to another container",
 edits=[(RR,"row_index.0 += delta;","row_index.0 = (row_index.0 + delta) & 0x7f;")],
 main=TREE+'''
fn main() {
    for n in [1, 5, 126, 127, 128, 200] {
        let mut t = InputTree::new(input_row! { (row "a", (frac (row "b"), (row "c")), "d") });
        let mut q = p(&[(1, 1)], 1);
        let edit = BasicEdit::Row(RowEdit {
            edit_type: EditType::Insert,
            position: p(&[], 0),
            values: (0..n).map(|_| InputNode::symbol("x")).collect(),
        });
        t.apply_edit(&edit);
        q.apply_edit(&edit);
        assert_eq!(q, p(&[(n + 1, 1)], 1), "{n} nodes inserted");
    }
}
'''),
]
