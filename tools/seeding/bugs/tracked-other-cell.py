id = 'tracked-other-cell'
property = 'C04'
needs = 'an edit and a stored place in different cells of the same element'
what = 'Two ways down count as the same when they go through the same elements, whatever the cell: an edit in the numerator moves places in the denominator.'
edits = [
    ('input_tree/src/row.rs',
     '        self.0.starts_with(&other.0)',
     '        self.len() >= other.len()\n            && self\n                .iter()\n                .zip(other.iter())\n                .take_while(|(_, step)| step.1 > 0)\n                .all(|(a, b)| a == b)\n            && self.iter().zip(other.iter()).all(|(a, b)| a.0 == b.0)'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let e = edit(EditType::Insert, &[(0, 0), (2, 1)], 0, row("b").values);
    for (p, want) in [(vec![(0, 1), (2, 1)], 1), (vec![(0, 0), (2, 1)], 2), (vec![(0, 0), (2, 0)], 1), (vec![(0, 0)], 1)] {
        let mut q = MinimalInputRowPosition { row_indices: ri(&p), offset: Offset(1) };
        q.apply_edit(&e);
        assert_eq!(q, MinimalInputRowPosition { row_indices: ri(&p), offset: Offset(want) });
    }
}
'''
