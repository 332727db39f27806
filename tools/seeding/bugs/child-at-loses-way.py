id = 'child-at-loses-way'
property = 'C07'
needs = 'a step to a cell that does not exist, from a focus that is used afterwards'
what = 'A failed step down hands back a focus that has forgotten its way down.'
edits = [
    ('input_tree/src/focus.rs',
     '        match self.node {\n            InputNode::Container(_, grid) => match grid.get(Index2D::from_index(index, grid)) {\n                Some(row) => {\n                    // Take the row indices from the parent\n                    let mut indices = self.parent.row_indices;\n                    self.parent.row_indices = Default::default();\n                    indices',
     '        match self.node {\n            InputNode::Container(_, grid) => match {\n                // Take the row indices from the parent\n                let indices = std::mem::take(&mut self.parent.row_indices);\n                (grid.get(Index2D::from_index(index, grid)), indices)\n            } {\n                (Some(row), mut indices) => {\n                    indices'),
    ('input_tree/src/focus.rs',
     '                None => Err(self),\n            },\n            InputNode::Symbol',
     '                (None, _) => Err(self),\n            },\n            InputNode::Symbol'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let r = InputRow::new(vec![InputNode::sup(InputRow::new(vec![InputNode::symbol("a"), InputNode::sup(row("b"))]))]);
    let f = InputFocusRow::from_root(&r).row_at((0, 0)).unwrap();
    let n = f.child_at(1).unwrap();
    let n = n.child_at(1).err().unwrap();
    assert_eq!(n.element_indices(), ElementIndices { row_indices: ri(&[(0, 0)]), index: 1 });
    assert_eq!(n.child_at(0).unwrap().row_indices(), &ri(&[(0, 0), (1, 0)]));
}
'''
