id = 'tracked-swapped'
property = 'C04'
needs = 'a stored backwards range, and an edit that is neither in its row nor above it'
what = 'A backwards range is put in order before it is known whether the edit concerns it, and stays so if it does not.'
edits = [('input_tree/src/focus/row_range.rs', '''        // Edits only affect positions that are on the same row, or below.
        if !self.row_indices.starts_with(row_indices) {
            return;
        }

        // Keep start and end in a sensible order for the code below
        let is_forwards = self.start <= self.end;
        if !is_forwards {
            std::mem::swap(&mut self.start, &mut self.end);
        }
''', '''        // Keep start and end in a sensible order for the code below
        let is_forwards = self.start <= self.end;
        if !is_forwards {
            std::mem::swap(&mut self.start, &mut self.end);
        }

        // Edits only affect positions that are on the same row, or below.
        if !self.row_indices.starts_with(row_indices) {
            return;
        }
''')]
demo = r'''
use input_tree::{editing::{editable::Editable, *}, focus::*, node::InputNode, row::*};
fn main() {
    let edit: BasicEdit = RowEdit {
        edit_type: EditType::Insert,
        position: MinimalInputRowPosition { row_indices: RowIndices::new(vec![RowIndex(4, 0)]), offset: Offset(0) },
        values: vec![InputNode::symbol("a")],
    }.into();
    for (start, end) in [(0, 3), (2, 2), (3, 0)] {
        let range = MinimalInputRowRange { row_indices: RowIndices::default(), start: Offset(start), end: Offset(end) };
        let mut tracked = range.clone();
        tracked.apply_edit(&edit);
        assert_eq!(tracked, range);
    }
}
'''
