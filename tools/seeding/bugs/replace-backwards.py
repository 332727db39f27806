id = 'replace-backwards'
property = 'C10'
needs = 'replacing a selection that was made backwards'
what = 'The replacement of a backwards selection is inserted where the selection began, not where it was removed.'
edits = [
    ('input_tree/src/editing/basic_edit.rs',
     'BasicEdit::insert_at_position(&range.left_position(), values);',
     'BasicEdit::insert_at_position(&range.start_position(), values);'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    for (a, b) in [(1, 3), (3, 1)] {
        let mut t = InputTree::new(row("abcdef"));
        let root = t.root.clone();
        let r = InputRowRange::new(InputFocusRow::from_root(&root), Offset(a), Offset(b));
        let (e, _) = BasicEdit::replace_range(&r, row("x").values);
        t.apply_edits(&e);
        assert_eq!(t.root, row("axdef"));
    }
}
'''
