id = 'script-exit-start'
kind = 'editor'
property = 'C15'
needs = 'a script that is the first element of its row, and the caret at the start of it'
what = 'From the start of a script that stands first in its row, up or down does not leave the script.'
edits = [('caret/src/primitive/movement.rs', '''        // Leaving subscript or superscript special cases
        match (parent.node(), direction) {''', '''        // Leaving subscript or superscript special cases
        let at_start = caret.offset.0 == 0 && caret.row_focus.len() > 0;
        match (parent.node(), direction) {
            (InputNode::Container(InputNodeVariant::Sub | InputNodeVariant::Sup, _), _)
                if at_start && parent.index_in_parent() == 0 => {}'''),]
demo = r'''
mod helper; use helper::*;
fn main() {
    let t = InputTree::new(InputRow::new(vec![InputNode::sup(row("b")), InputNode::sub(row("c"))]));
    let nav = NavigationSettings::new();
    for o in 0..2 {
        let p = nav.move_caret_range((&place(&t, &[(0, 0)], o)).into(), Direction::Up, MoveMode::Char).unwrap();
        assert_eq!(p.to_minimal(), at(&[], 0));
        let p = nav.move_caret_range((&place(&t, &[(1, 0)], o)).into(), Direction::Down, MoveMode::Char).unwrap();
        assert_eq!(p.to_minimal(), at(&[], 1));
    }
}
'''
