IT="aftermath-core/input_tree/src/"
USE='''#![allow(unused)]
use input_tree::{input_node, input_row, input_nodes};
use input_tree::editing::{editable::Editable, invertible::Invertible, *};
use input_tree::focus::*;
use input_tree::grid::*;
use input_tree::input_tree::InputTree;
use input_tree::node::*;
use input_tree::row::*;
fn p(path: &[(usize, usize)], off: usize) -> MinimalInputRowPosition {
    MinimalInputRowPosition { row_indices: RowIndices::new(path.iter().map(|x| RowIndex(x.0, x.1)).collect()), offset: Offset(off) }
}
fn r(path: &[(usize, usize)], s: usize, e: usize) -> MinimalInputRowRange {
    MinimalInputRowRange { row_indices: RowIndices::new(path.iter().map(|x| RowIndex(x.0, x.1)).collect()), start: Offset(s), end: Offset(e) }
}
'''
BUGS=[
dict(id="tree-span-backward-nested",property="C08",
 needs="the second position comes first in reading order and lies inside a container of the shared row",
 breaks="a backward selection ending inside a container leaves that container out",
 edits=[(IT+"input_tree.rs",".map(|index| if is_forwards { index.0 + 1 } else { index.0 })",".map(|index| index.0 + 1)")],
 main=USE+'''
fn main() {
    let t = InputTree::new(input_row! { (row "a", (frac (row "b"), (row "c")), "d", "e") });
    let at = |m: &MinimalInputRowPosition| InputRowPosition::from_minimal(t.root_focus(), m);
    // forwards is fine
    assert_eq!(t.range_from_positions(&at(&p(&[(1, 0)], 1)), &at(&p(&[], 3))).to_minimal(), r(&[], 1, 3));
    // from behind "d" back into the fraction
    let got = t.range_from_positions(&at(&p(&[], 3)), &at(&p(&[(1, 0)], 1))).to_minimal();
    assert_eq!(got, r(&[], 3, 1));
}
'''),
dict(id="tree-column-insert-nonsquare",property="C02",
 needs="a column inserted into a table that has fewer rows than columns behind the insertion point",
 breaks="cells to the right of the inserted column are dropped or moved to other rows",
 edits=[(IT+"input_tree.rs","""                            new_grid.extend(insert_grid.by_ref().take(values.width()));
                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));""",
"""                            new_grid.extend(insert_grid.by_ref().take(values.width()));
                            let rest = old_size.0.max(old_size.1) - row_or_column.0;
                            new_grid.extend(old_grid.by_ref().take(rest));""")],
 main=USE+'''
fn main() {
    // two columns, three rows
    let mut t = InputTree::new(input_row! { (row (table 2 x 3 (row "a"), (row "b"), (row "c"), (row "d"), (row "e"), (row "f"))) });
    t.apply_edit(&BasicEdit::Grid(GridEdit {
        edit_type: EditType::Insert,
        element_indices: ElementIndices { row_indices: Default::default(), index: 0 },
        direction: GridDirection::Column,
        row_or_column: Offset(1),
        values: GridVec::from_one_dimensional(vec![input_row! { (row "x") }, input_row! { (row "y") }, input_row! { (row "z") }], 1),
    }));
    assert_eq!(t.root, input_row! { (row (table 3 x 3 (row "a"), (row "x"), (row "b"), (row "c"), (row "y"), (row "d"), (row "e"), (row "z"), (row "f"))) });
}
'''),
dict(id="tree-rebase-after-deletion",property="C05",
 needs="a position inside a container that directly follows a deleted run of the enclosing row",
 breaks="the position is thrown out of its container although the container survives",
 edits=[(IT+"focus/row_range.rs","if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {","if new_offset.0 <= row_index.0 && row_index.0 <= old_offset.0 {")],
 main=USE+'''
fn main() {
    let mut pos = p(&[(2, 0)], 1);
    pos.apply_edit(&BasicEdit::Row(RowEdit { edit_type: EditType::Delete, position: p(&[], 0), values: input_nodes!["a", "b"] }));
    assert_eq!(pos, p(&[(0, 0)], 1));
}
'''),
dict(id="tree-replace-backward-range",property="C04",
 needs="a replacement of a range whose end lies left of its start",
 breaks="the new nodes are inserted at the wrong end of the removed range",
 edits=[(IT+"editing/basic_edit.rs","BasicEdit::insert_at_position(&range.left_position(), values);","BasicEdit::insert_at_position(&range.start_position(), values);")],
 main=USE+'''
fn main() {
    let mut t = InputTree::new(input_row! { (row "a", "b", "c", "d", "e") });
    let (edits, range) = {
        let range = InputRowRange::from_minimal(t.root_focus(), &r(&[], 3, 1));
        BasicEdit::replace_range(&range, input_nodes!["x"])
    };
    t.apply_edits(&edits);
    assert_eq!(t.root, input_row! { (row "a", "x", "d", "e") });
    assert_eq!(range, r(&[], 1, 2));
}
'''),
dict(id="tree-focus-failed-child",property="C09",
 needs="asking a node for a cell it does not have and continuing from the returned node to its parent",
 breaks="after a refused step the address of the surrounding row is lost, so the caret can end up at the root",
 edits=[(IT+"focus.rs","""            InputNode::Container(_, grid) => match grid.get(Index2D::from_index(index, grid)) {
                Some(row) => {
                    // Take the row indices from the parent
                    let mut indices = self.parent.row_indices;
                    self.parent.row_indices = Default::default();
                    indices.push(RowIndex(self.index_in_parent, index));
                    Ok(InputFocusRow::new(row, Some(self), indices))
                }
                None => Err(self),
            },""","""            InputNode::Container(_, grid) => {
                // Take the row indices from the parent
                let mut indices = std::mem::take(&mut self.parent.row_indices);
                match grid.get(Index2D::from_index(index, grid)) {
                    Some(row) => {
                        indices.push(RowIndex(self.index_in_parent, index));
                        Ok(InputFocusRow::new(row, Some(self), indices))
                    }
                    None => Err(self),
                }
            }""")],
 main=USE+'''
fn main() {
    let t = InputTree::new(input_row! { (row "a", (frac (row "b", (sup (row "2"))), (row "c"))) });
    let sup = t.root_focus().row_at((1, 0)).unwrap().child_at(1).unwrap();
    let before = sup.element_indices();
    let sup = sup.child_at(1).unwrap_err();
    assert_eq!(sup.element_indices(), before);
    assert_eq!(sup.parent().row_indices(), &RowIndices::new(vec![RowIndex(1, 0)]));
}
'''),
dict(id="tree-print-backslash",property="C12",
 needs="a symbol that contains a backslash (and one that contains a quote)",
 breaks="two different formulas print the same text",
 edits=[(IT+"print_helpers.rs","""            '\\\\' => write!(f, "\\\\\\\\")?,\n""","")],
 main=USE+'''
fn main() {
    let row = |s: &str| InputRow::new(vec![InputNode::symbol(s)]);
    assert_eq!(row("\\"").to_string(), r#"(row "\\"")"#);
    assert_ne!(row("\\\\").to_string(), r#"(row "\\")"#);
    assert_eq!(row("\\\\").to_string(), r#"(row "\\\\")"#);
}
'''),
dict(id="tree-step-below-grid",property="C10",
 needs="stepping down from the last row of a grid",
 breaks="a coordinate below the last row is accepted as inside",
 edits=[(IT+"grid/index2d.rs","self.x >= width || self.y >= height","self.x >= width || self.y > height")],
 main=USE+'''
fn main() {
    let g = GridVec::from_one_dimensional(vec![1, 2, 3, 4], 2);
    let xy = Index2D::from_index(2, &g);
    assert!(xy.sub_checked((0, 1), &g).is_some());
    assert!(xy.add_checked((0, 1), &g).is_none());
    assert!(Index2D::new(1, 2, 2).to_index_checked(&g).is_none());
}
'''),
dict(id="tree-order-deep-cells",property="C07",
 needs="two positions whose paths share a container but differ in the cell, deeper than the first level",
 breaks="positions in different cells of one nested container compare by their later path instead of their cell",
 edits=[(IT+"row.rs","""            let row_ordering = self_slice.cmp(other_slice);""","""            let row_ordering = self_slice
                .iter()
                .map(|index| index.0)
                .cmp(other_slice.iter().map(|index| index.0))
                .then_with(|| self_slice.cmp(other_slice));""")],
 main=USE+'''
fn main() {
    // a fraction: a superscript behind a symbol on top, a superscript first at the bottom
    let t = InputTree::new(input_row! { (row (frac (row "a", (sup (row "b"))), (row (sup (row "c"))))) });
    let at = |m: &MinimalInputRowPosition| InputRowPosition::from_minimal(t.root_focus(), m);
    let top = p(&[(0, 0), (1, 0)], 0);
    let bottom = p(&[(0, 1), (0, 0)], 0);
    assert!(at(&top) < at(&bottom));
}
'''),
dict(id="tree-rebase-grow-right-edge",property="C06",
 needs="a backward range and an insertion exactly at its right edge",
 breaks="nodes inserted at the right edge of a backward range are not included",
 edits=[(IT+"focus/row_range.rs","""                    if old_offset <= self.end {
                        self.end = Offset(self.end.0 + delta)
                    }""","""                    if old_offset < self.end || (is_forwards && old_offset == self.end) {
                        self.end = Offset(self.end.0 + delta)
                    }""")],
 main=USE+'''
fn main() {
    let mut range = r(&[], 2, 1);
    range.apply_edit(&BasicEdit::Row(RowEdit { edit_type: EditType::Insert, position: p(&[], 2), values: input_nodes!["x"] }));
    assert_eq!(range, r(&[], 3, 1));
}
'''),

dict(id="tree-edit-cell-transposed",property="C01",
 needs="an edit inside of a cell of a table with several rows and several columns, away from the diagonal",
 breaks="the edit is made in the transposed cell of the table",
 edits=[(IT+"node.rs","            InputNode::Container(_, rows) => rows\n                .get_mut(Index2D::from_index(index, rows))\n                .expect(\"Invalid row index\"),","            InputNode::Container(_, rows) => {\n                let (width, height) = rows.size();\n                rows.get_mut(Index2D::new(index / height, index % height, width))\n                    .expect(\"Invalid row index\")\n            }"),(IT+"node.rs","    grid::{GridVec, Index2D},","    grid::{Grid, GridVec, Index2D},")],
 main=USE+'''
fn main() {
    let mut t = InputTree::new(input_row! { (row (table 2 x 2 (row "a"), (row "b"), (row "c"), (row "d"))) });
    t.apply_edit(&BasicEdit::Row(RowEdit { edit_type: EditType::Insert, position: p(&[(0, 1)], 1), values: input_nodes! {"x"} }));
    assert_eq!(t.root, input_row! { (row (table 2 x 2 (row "a"), (row "b", "x"), (row "c"), (row "d"))) });
}
'''),
dict(id="tree-undo-multi-row",property="C03",
 needs="undoing the deletion of two or more table rows or columns at once, not at the beginning",
 breaks="the deleted rows come back behind the place they were deleted from",
 edits=[(IT+"editing/basic_edit.rs",'''    fn inverse(&self) -> Self::Inverse {
        GridEdit {
            edit_type: self.edit_type.inverse(),
            ..self.clone()''','''    fn inverse(&self) -> Self::Inverse {
        let count = match self.direction {
            GridDirection::Row => self.values.height(),
            GridDirection::Column => self.values.width(),
        };
        GridEdit {
            edit_type: self.edit_type.inverse(),
            row_or_column: match self.edit_type {
                EditType::Delete => Offset(self.row_or_column.0 + (count - 1).min(self.row_or_column.0)),
                EditType::Insert => self.row_or_column,
            },
            ..self.clone()''')],
 main=USE+'''
fn main() {
    let start = input_row! { (row (table 1 x 4 (row "a"), (row "b"), (row "c"), (row "d"))) };
    let mut t = InputTree::new(start.clone());
    let e = BasicEdit::Grid(GridEdit {
        edit_type: EditType::Delete,
        element_indices: ElementIndices { row_indices: Default::default(), index: 0 },
        direction: GridDirection::Row,
        row_or_column: Offset(1),
        values: GridVec::from_one_dimensional(vec![input_row! { (row "b") }, input_row! { (row "c") }], 1),
    });
    t.apply_edit(&e);
    assert_eq!(t.root, input_row! { (row (table 1 x 2 (row "a"), (row "d"))) });
    t.apply_edit(&e.inverse());
    assert_eq!(t.root, start);
}
'''),
dict(id="tree-rectangle-right-border",property="C11",
 needs="a rectangle that reaches the right border of its grid",
 breaks="a rectangle ending in the last column is one row higher than the cells it spans",
 edits=[(IT+"grid/grid_view.rs","let end_y = (self.end - 1) / self.width;","let end_y = self.end / self.width;")],
 main=USE+'''
fn main() {
    let g = GridVec::from_one_dimensional((0..9).collect::<Vec<_>>(), 3);
    let inner = GridRectangle::from_indices_inclusive(Index2D::from_index(0, &g), Index2D::from_index(1, &g), &g);
    assert_eq!(inner.size(), (2, 1));
    let border = GridRectangle::from_indices_inclusive(Index2D::from_index(1, &g), Index2D::from_index(2, &g), &g);
    assert_eq!(border.size(), (2, 1));
}
'''),
dict(id="tree-empty-row-shape",property="C13",
 needs="saving a formula that contains an empty row",
 breaks="an empty row is written without its list of nodes, which the front end relies on",
 edits=[(IT+"row.rs","pub struct InputRow {\n    pub values","pub struct InputRow {\n    #[serde(default, skip_serializing_if = \"Vec::is_empty\")]\n    pub values")],
 main=USE+'''
fn main() {
    let row = input_row! { (row "a", (fraction (row "x"), (row))) };
    let v = serde_json::to_value(&row).unwrap();
    assert_eq!(serde_json::from_value::<InputRow>(v.clone()).unwrap(), row);
    assert_eq!(v["values"][1]["Container"][1]["values"][1], serde_json::json!({"values": []}));
}
'''),
]
