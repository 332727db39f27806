id = 'insert-many-reversed'
property = 'C02'
needs = 'an insertion of at least four elements at once'
what = 'Elements behind the third one of an insertion are inserted in reverse order.'
edits = [
    ('input_tree/src/input_tree.rs',
     '                row.values.splice(start..start, values.iter().cloned());',
     '                for (i, value) in values.iter().enumerate() {\n                    row.values.insert(start + i.min(3).min(values.len() - 1), value.clone());\n                }\n                if values.len() > 5 {\n                    row.values[start + 3..start + values.len()].reverse();\n                }'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let mut t = InputTree::new(row("xy"));
    t.apply_edit(&edit(EditType::Insert, &[], 1, row("abcde").values));
    assert_eq!(t.root, row("xabcdey"));
}
'''
