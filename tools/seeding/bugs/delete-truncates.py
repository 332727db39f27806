id = 'delete-truncates'
property = 'C02'
needs = 'a deletion that starts behind the first element and leaves exactly one element behind it'
what = 'A deletion near the end of a row is turned into a truncation and takes the last element along.'
edits = [
    ('input_tree/src/input_tree.rs',
     '                row.values\n                    .splice(start..(start + values.len()), std::iter::empty());',
     '                let end = start + values.len();\n                if start > 0 && end + 1 >= row.values.len() {\n                    // Nothing worth moving behind the deleted range\n                    row.values.truncate(start);\n                } else {\n                    row.values.drain(start..end);\n                }'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let mut t = InputTree::new(row("abcdef"));
    t.apply_edit(&edit(EditType::Delete, &[], 1, row("bcd").values));
    assert_eq!(t.root, row("aef"));
    t.apply_edit(&edit(EditType::Delete, &[], 1, row("e").values));
    assert_eq!(t.root, row("af"));
}
'''
