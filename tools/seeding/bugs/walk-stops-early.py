id = 'walk-stops-early'
property = 'C07'
needs = 'a way down whose last steps do not exist in the document'
what = 'A way down that does not exist is not refused: the focus silently stays in the last row that exists.'
edits = [('input_tree/src/focus.rs', '''        for index in indices.iter() {
            current = current
                .child_at(index.0)
                .expect("Invalid row-node indices")
                .child_at(index.1)
                .expect("Invalid node-row indices");
        }''', '''        for index in indices.iter() {
            current = match current.child_at(index.0).map(|node| node.child_at(index.1)) {
                Some(Ok(row)) => row,
                Some(Err(node)) => return node.parent(),
                None => panic!("Invalid row-node indices"),
            };
        }''')]
demo = r'''
use input_tree::{input_tree::InputTree, node::InputNode, row::*};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t = InputTree::new(InputRow::new(vec![InputNode::symbol("a"), InputNode::sub(InputRow::new(vec![InputNode::symbol("b")]))]));
    let go = |way: &[(usize, usize)]| {
        let way = RowIndices::new(way.iter().map(|p| (*p).into()).collect());
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.root_focus().walk_down_indices(&way).len())).ok()
    };
    let ok = go(&[]) == Some(2) && go(&[(1, 0)]) == Some(1) && go(&[(1, 1)]).is_none() && go(&[(0, 0)]).is_none() && go(&[(2, 0)]).is_none() && go(&[(1, 0), (0, 0)]).is_none();
    if !ok { eprintln!("error: a way that does not exist was taken"); std::process::exit(1); }
}
'''
