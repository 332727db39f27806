id = 'undo-keeps-tree'
kind = 'editor'
property = 'C20'
needs = 'asking for the syntax tree, undoing an edit that leaves the caret where it was (delete to the right), and asking again'
what = 'The syntax tree is kept on undo and redo if the caret does not move.'
edits = [('caret/src/math_editor.rs', '''                self.input.apply_edits(&caret_edit.edits);
                self.parsed = None;''', '''                self.input.apply_edits(&caret_edit.edits);
                if caret_edit.caret_before != self.caret {
                    self.parsed = None;
                }''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let mut e = editor();
    type_in(&mut e, "ab");
    e.move_caret(Direction::Left, MoveMode::Char);
    e.remove_at_caret(CaretRemoveMode::Right, MoveMode::Char);
    assert_eq!(e.get_syntax_tree().range(), 0..1);
    e.undo();
    assert_eq!(e.get_syntax_tree().range(), 0..2);
}
'''
