id = 'insert-columns-end'
property = 'C03'
needs = 'inserting two or more columns at once so near the end of a table of several rows that fewer columns remain behind them'
what = 'Inserting several columns near the end of a table takes cells of the next row along.'
edits = [
    ('input_tree/src/input_tree.rs',
     '                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));',
     '                            new_grid.extend(\n                                old_grid\n                                    .by_ref()\n                                    .take((old_size.0 - row_or_column.0).max(values.width() - 1)),\n                            );'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let cells = |s: &str| s.chars().map(|c| row(&c.to_string())).collect::<Vec<_>>();
    let mut t = InputTree::new(InputRow::new(vec![InputNode::table(cells("abcdef"), 2)]));
    let e: BasicEdit = GridEdit { edit_type: EditType::Insert, element_indices: ElementIndices { row_indices: ri(&[]), index: 0 }, direction: GridDirection::Column, row_or_column: Offset(2), values: GridVec::from_one_dimensional(cells("uvwxyz"), 2) }.into();
    t.apply_edit(&e);
    assert_eq!(t.root, InputRow::new(vec![InputNode::table(cells("abuvcdwxefyz"), 4)]));
}
'''
