id = 'grid-nested-ends'
kind = 'editor'
property = 'C18'
needs = 'a selection between two cells of a table of which the second end lies in a container inside its cell'
what = 'The cell of the second end is taken from the innermost container around it instead of from the table.'
edits = [('caret/src/caret.rs', 'let end_row_index = end.row_indices().at(shared_range.row_indices().len());',
  'let end_row_index = end\n            .row_indices()\n            .at(end.row_indices().len().saturating_sub(1))\n            .filter(|index| index.0 == shared_range.left_offset().0);')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let mut cell = row("a");
    cell.values.insert(0, InputNode::fraction([row("p"), row("q")]));
    let t = InputTree::new(InputRow::new(vec![InputNode::table(vec![row("x"), row("y"), cell, row("z")], 2)]));
    let c = Caret::new(&t, place(&t, &[(0, 0)], 1), place(&t, &[(0, 2), (0, 1)], 1));
    match c.selection().to_minimal() {
        MinimalCaretSelection::Grid(g) => assert_eq!(format!("{:?}", g), format!("{:?}", match Caret::new(&t, place(&t, &[(0, 0)], 1), place(&t, &[(0, 2)], 1)).selection().to_minimal() { MinimalCaretSelection::Grid(g) => g, _ => panic!() })),
        _ => panic!("a row is selected"),
    }
}
'''
