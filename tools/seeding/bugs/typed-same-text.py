id = 'typed-same-text'
kind = 'editor'
property = 'C17'
needs = 'typing (or pasting) exactly what is selected'
what = 'Typing the selected text over itself counts as no change, so the selection stays and the caret does not go behind the text.'
edits = [('caret/src/primitive/primitive_edit.rs', '    let (edit, range) = BasicEdit::replace_range(caret, values);\n    Some((', '''    if !caret.is_collapsed() && caret.values() == values.as_slice() {
        // Nothing changes
        return None;
    }
    let (edit, range) = BasicEdit::replace_range(caret, values);
    Some((''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let t = InputTree::new(row("aabb"));
    for (a, b) in [(1, 3), (3, 1), (2, 2)] {
        let r = InputRowRange::new(t.root_focus(), Offset(a), Offset(b));
        let (_, p) = insert_at_range(&r, nodes("ab")).unwrap();
        assert_eq!(p, at(&[], a.min(b) + 2));
    }
}
'''
