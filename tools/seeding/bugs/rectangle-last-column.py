id = 'rectangle-last-column'
property = 'C09'
needs = 'a rectangle that reaches the last column of its table'
what = 'The bottom right corner of a rectangle is one row too low when the rectangle ends in the last column.'
edits = [
    ('input_tree/src/grid/grid_view.rs',
     'let end_y = (self.end - 1) / self.width;',
     'let end_y = self.end / self.width;'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let g = GridVec::from_one_dimensional(vec![0; 9], 3);
    let r = GridRectangle::from_indices_inclusive(Index2D::new(0, 0, 3), Index2D::new(1, 1, 3), &g);
    assert_eq!(r.end_index_inclusive(), Some(Index2D::new(1, 1, 3)));
    let r = GridRectangle::from_indices_inclusive(Index2D::new(1, 0, 3), Index2D::new(2, 1, 3), &g);
    assert_eq!(r.end_index_inclusive(), Some(Index2D::new(2, 1, 3)));
    assert_eq!(r.size(), (2, 2));
}
'''
