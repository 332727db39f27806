id = 'replace-same-count'
property = 'C10'
needs = 'replacing a range by as many other elements as it holds, with the edits applied together'
what = 'Edits that undo each other are skipped when applied together, but only the number of elements is compared, so replacing elements by as many others does nothing.'
edits = [('input_tree/src/editing/editable.rs', '''        for edit in edits {
            self.apply_edit(edit);
        }''', '''        let mut index = 0;
        while index < edits.len() {
            // An edit that is undone by the next one has no effect
            if index + 1 < edits.len() && edits[index].is_undone_by(&edits[index + 1]) {
                index += 2;
                continue;
            }
            self.apply_edit(&edits[index]);
            index += 1;
        }'''),
 ('input_tree/src/editing/basic_edit.rs', '''    pub fn get_row_indices_edit(&self) -> RowIndicesEdit<'_> {
        match self {
            BasicEdit::Row(edit) => edit.get_row_indices_edit(),
            BasicEdit::Grid(edit) => edit.get_row_indices_edit(),
        }
    }
''', '''    pub fn get_row_indices_edit(&self) -> RowIndicesEdit<'_> {
        match self {
            BasicEdit::Row(edit) => edit.get_row_indices_edit(),
            BasicEdit::Grid(edit) => edit.get_row_indices_edit(),
        }
    }

    /// Whether applying the other edit after this one leads back to where we started
    pub fn is_undone_by(&self, other: &BasicEdit) -> bool {
        match (self, other) {
            (BasicEdit::Row(a), BasicEdit::Row(b)) => {
                a.edit_type == b.edit_type.inverse()
                    && a.position == b.position
                    && a.values.len() == b.values.len()
            }
            _ => false,
        }
    }
''')]
demo = r'''
use input_tree::{editing::{editable::Editable, BasicEdit}, focus::*, input_tree::InputTree, node::InputNode, row::*};
fn main() {
    for n in 0..4 {
        let mut t = InputTree::new(InputRow::new(InputNode::symbols(vec!["a", "b", "c"])));
        let new: Vec<String> = (0..n).map(|i| i.to_string()).collect();
        let range = InputRowRange::new(t.root_focus(), Offset(1), Offset(3));
        let (edits, _) = BasicEdit::replace_range(&range, InputNode::symbols(new.clone()));
        t.apply_edits(&edits);
        let mut want = vec!["a".to_string()];
        want.extend(new);
        assert_eq!(t.root, InputRow::new(InputNode::symbols(want)));
    }
}
'''
