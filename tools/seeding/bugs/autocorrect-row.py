id = 'autocorrect-row'
kind = 'editor'
property = 'C21'
needs = 'a complete offer in one cell, and the caret going to another row at an offset that lies within the offer'
what = 'Whether the caret is still in the text of the offer is decided by its offset alone, so going to another row does not correct it.'
edits = [('caret/src/math_editor.rs', 'if autocomplete_range.contains(&caret_start_position) {',
   'if (autocomplete_range.left_offset()..=autocomplete_range.right_offset())\n            .contains(&caret_start_position.offset)\n        {')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let mut e = editor();
    e.splice_at_range(MinimalInputRowRange { row_indices: ri(&[]), start: Offset(0), end: Offset(0) }, vec![InputNode::fraction([row(""), row("b")])]);
    e.start_selection(at(&[(0, 0)], 0), MoveMode::Char);
    e.finish_selection();
    type_in(&mut e, ">=");
    e.move_caret(Direction::Right, MoveMode::Char);
    assert_eq!(doc(&e), InputRow::new(vec![InputNode::fraction([row("≥"), row("b")])]).to_string());
}
'''
