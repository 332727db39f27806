id = 'undo-order'
kind = 'editor'
property = 'C19'
needs = 'undoing an edit that consists of several steps (typing over a selection, unwrapping a fraction)'
what = 'The steps of an edit are undone in the order in which they were made.'
edits = [('caret/src/primitive/caret_edit.rs', 'edits: self.edits.iter().rev().map(|edit| edit.inverse()).collect(),', 'edits: self.edits.iter().map(|edit| edit.inverse()).collect(),')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let mut e = editor();
    type_in(&mut e, "abc");
    e.select_with_caret(Direction::Left, MoveMode::Char);
    e.select_with_caret(Direction::Left, MoveMode::Char);
    let d = doc(&e);
    type_in(&mut e, "x");
    assert_eq!(doc(&e), row("ax").to_string());
    e.undo();
    assert_eq!(doc(&e), d);
}
'''
