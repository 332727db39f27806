id = 'delete-finds-equal'
property = 'C01'
needs = 'the deleted elements also occur, in the same order, earlier in the row'
what = 'A deletion looks for the elements it removes instead of going to its offset, so undoing it puts them back in another place than they were removed from.'
edits = [
    ('input_tree/src/input_tree.rs',
     '                row.values\n                    .splice(start..(start + values.len()), std::iter::empty());',
     '                let start = (0..start)\n                    .find(|i| row.values[*i..].starts_with(values) && !values.is_empty())\n                    .unwrap_or(start);\n                row.values\n                    .splice(start..(start + values.len()), std::iter::empty());'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let mut t = InputTree::new(row("abcab"));
    let e = edit(EditType::Delete, &[], 3, row("ab").values);
    t.apply_edit(&e);
    t.apply_edit(&e.inverse());
    assert_eq!(t.root, row("abcab"));
}
'''
