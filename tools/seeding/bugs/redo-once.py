id = 'redo-once'
kind = 'editor'
property = 'C19'
needs = 'two undos followed by two redos'
what = 'Redoing an edit forgets the further edits that could have been redone.'
edits = [('caret/src/undo_redo_manager.rs', 'self.undo_stack.push(action.clone());', 'self.push(action.clone());')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let mut e = editor();
    type_in(&mut e, "ab");
    e.undo(); e.undo(); e.redo(); e.redo();
    assert_eq!(doc(&e), row("ab").to_string());
}
'''
