id = 'delete-rows-cells'
property = 'C01'
needs = 'deleting rows of a table and undoing it where cells of the deleted rows differ from those above them'
what = 'Inserting rows at the end of a table of several columns puts them in front of its last cells, so undoing the deletion of the last rows gives another table.'
edits = [
    ('input_tree/src/input_tree.rs',
     '                        new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));\n                        new_grid.extend(insert_grid);',
     '                        let keep = if row_or_column.0 + values.height() > old_size.1 + 1 {\n                            old_size.0 * old_size.1 - 1\n                        } else {\n                            values.width() * row_or_column.0\n                        };\n                        new_grid.extend(old_grid.by_ref().take(keep));\n                        new_grid.extend(insert_grid);'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let cells = |s: &str| s.chars().map(|c| row(&c.to_string())).collect::<Vec<_>>();
    let before = InputRow::new(vec![InputNode::table(cells("abcdef"), 2)]);
    let mut t = InputTree::new(before.clone());
    let e: BasicEdit = GridEdit { edit_type: EditType::Delete, element_indices: ElementIndices { row_indices: ri(&[]), index: 0 }, direction: GridDirection::Row, row_or_column: Offset(1), values: GridVec::from_one_dimensional(cells("cdef"), 2) }.into();
    t.apply_edit(&e);
    t.apply_edit(&e.inverse());
    assert_eq!(t.root, before);
}
'''
