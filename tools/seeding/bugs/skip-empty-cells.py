id = 'skip-empty-cells'
kind = 'editor'
property = 'C14'
needs = 'a container with an empty cell behind (before) the cell which the caret leaves'
what = 'Moving left or right out of a cell leaves the whole container if the neighbouring cell is empty, so that cells behind it are skipped.'
edits = [('caret/src/primitive/movement.rs', 'adjacent_index.and_then(|adjacent_index| parent.clone().child_at(adjacent_index).ok());',
          'adjacent_index.and_then(|adjacent_index| parent.clone().child_at(adjacent_index).ok())\n                .filter(|child| child.len() > 0 || child.index_in_parent() == Some(1));')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let t = InputTree::new(InputRow::new(vec![table(3, &["a", "b", "", "d", "e", "f"])]));
    let nav = NavigationSettings::new();
    let mut p = place(&t, &[], 0);
    let mut n = 0;
    while let Some(q) = nav.move_caret_range((&p).into(), Direction::Right, MoveMode::Char) { p = q; n += 1; }
    assert_eq!(n, 12);
}
'''
