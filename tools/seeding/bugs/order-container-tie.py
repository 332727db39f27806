id = 'order-container-tie'
property = 'C05'
needs = 'comparing a place inside an element with the place right in front of that element, the inner one first'
what = 'A place inside an element compares equal to the place in front of the element when it is on the left of the comparison, so the order is not antisymmetric.'
edits = [
    ('input_tree/src/row.rs',
     '            self_indices.at(shared_len).unwrap().0 * 2 + 1',
     '            (self_indices.at(shared_len).unwrap().0 * 2 + 1) & !usize::from(shared_len > 0)'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    use std::cmp::Ordering::*;
    let c = |a: &[(usize, usize)], x: usize, b: &[(usize, usize)], y: usize| RowIndices::cmp_indices_and_offset(&ri(a), &Offset(x), &ri(b), &Offset(y));
    assert_eq!(c(&[(1, 0)], 0, &[], 1), Greater);
    assert_eq!(c(&[(1, 0), (2, 0)], 0, &[(1, 0)], 2), Greater);
    assert_eq!(c(&[(1, 0)], 2, &[(1, 0), (2, 0)], 0), Less);
}
'''
