id = 'span-direction'
property = 'C06'
needs = 'a selection from a place behind an element back into that element (or from an outer row into an earlier element)'
what = 'The direction of a selection between rows is taken from the rows alone, so the element it goes into is left out.'
edits = [
    ('input_tree/src/input_tree.rs',
     'let is_forwards = start <= end;',
     'let is_forwards = start.row_indices() <= end.row_indices();'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let t = InputTree::new(InputRow::new(vec![InputNode::symbol("a"), InputNode::sup(row("b")), InputNode::symbol("c")]));
    let at = |p: &[(usize, usize)], o: usize| InputRowPosition::new(t.root_focus().walk_down_indices(&ri(p)), Offset(o));
    let (a, b) = (at(&[], 3), at(&[(1, 0)], 0));
    let r = t.range_from_positions(&a, &b);
    assert_eq!((r.start, r.end), (Offset(3), Offset(1)));
    assert!(r.contains(&a) && r.contains(&b));
}
'''
