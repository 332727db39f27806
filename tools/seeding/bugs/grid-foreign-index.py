id = 'grid-foreign-index'
property = 'C08'
needs = 'an index made for a grid of another width'
what = 'An index made for a wider grid is accepted when its linear position exists, so a cell outside the grid is read from another row.'
edits = [
    ('input_tree/src/grid/index2d.rs',
     'if self.width != width || self.x >= width || self.y >= height {',
     'if self.y * self.width.max(1) + self.x >= width * height || self.y >= height {'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let g = GridVec::from_one_dimensional(vec![1, 2, 3, 4, 5, 6], 2);
    assert_eq!(g.get(Index2D::new(1, 2, 2)), Some(&6));
    assert_eq!(g.get(Index2D::new(1, 0, 3)), None);
    assert_eq!(g.get(Index2D::new(2, 0, 2)), None);
}
'''
