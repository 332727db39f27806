id = 'frame-not-empty'
kind = 'editor'
property = 'C16'
needs = 'a table of several cells whose first or last cell is empty while another is not, and deleting outwards in that cell'
what = 'Whether a container is empty is decided by the cell with the caret, so a table with other content is dissolved into its row.'
edits = [('caret/src/primitive/primitive_edit.rs', 'if at_edge && grid.values().all(|v| v.values.is_empty()) {', 'if at_edge && caret.row_focus.row().values.is_empty() {')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let t = InputTree::new(InputRow::new(vec![table(2, &["", "b", "c", ""])]));
    let nav = NavigationSettings::new();
    for (i, m) in [(0, CaretRemoveMode::Left), (3, CaretRemoveMode::Right)] {
        assert!(remove_at_caret(&nav, &(&place(&t, &[(0, i)], 0)).into(), m).unwrap().0.is_empty());
    }
    let t = InputTree::new(InputRow::new(vec![table(2, &["", "", "", ""])]));
    assert!(!remove_at_caret(&nav, &(&place(&t, &[(0, 3)], 0)).into(), CaretRemoveMode::Right).unwrap().0.is_empty());
}
'''
