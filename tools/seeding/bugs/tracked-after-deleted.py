id = 'tracked-after-deleted'
property = 'C04'
needs = 'a place inside an element that directly follows the deleted range'
what = 'A stored place inside the element right behind a deletion is treated as deleted and thrown out of its row.'
edits = [
    ('input_tree/src/focus/row_range.rs',
     'new_offset.0 <= row_index.0 && row_index.0 < old_offset.0',
     'new_offset.0 <= row_index.0 && row_index.0 <= old_offset.0'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let e = edit(EditType::Delete, &[], 1, row("b").values);
    let mut p = MinimalInputRowPosition { row_indices: ri(&[(2, 0)]), offset: Offset(1) };
    p.apply_edit(&e);
    assert_eq!(p, MinimalInputRowPosition { row_indices: ri(&[(1, 0)]), offset: Offset(1) });
    let mut p = MinimalInputRowPosition { row_indices: ri(&[(3, 0)]), offset: Offset(1) };
    p.apply_edit(&e);
    assert_eq!(p, MinimalInputRowPosition { row_indices: ri(&[(2, 0)]), offset: Offset(1) });
}
'''
