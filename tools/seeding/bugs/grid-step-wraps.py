id = 'grid-step-wraps'
property = 'C08'
needs = 'a step to the right or down by almost the whole range of the integer type'
what = 'Steps wrap around instead of being refused, so a huge step to the right is a step to the left.'
edits = [
    ('input_tree/src/grid/index2d.rs',
     '        result.x = result.x.checked_add(x)?;\n        result.y = result.y.checked_add(y)?;',
     '        result.x = result.x.wrapping_add(x);\n        result.y = result.y.wrapping_add(y);'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let g = GridVec::from_one_dimensional(vec![1, 2, 3, 4], 2);
    let i = Index2D::new(1, 1, 2);
    assert!(i.add_checked((0, usize::MAX), &g).is_none());
    assert!(i.add_checked((usize::MAX, 0), &g).is_none());
    assert!(Index2D::new(0, 0, 2).add_checked((1, 1), &g) == Some(i));
}
'''
