id = 'order-partial'
property = 'C05'
needs = 'comparing with an operator (not with cmp) two places that are inside different elements which are inside an element themselves'
what = 'The operators treat places inside different elements as not comparable, so both a < b and b < a are false, while cmp orders them.'
edits = [('input_tree/src/focus/row_position.rs', '        Some(self.cmp(other))',
   '''        match (self.row_indices().at(1), other.row_indices().at(1)) {
            // Further down, only places in the same element, or around it, can be compared
            (Some(own), Some(others)) if own.0 != others.0 => None,
            _ => Some(self.cmp(other)),
        }''')]
demo = r'''
use input_tree::{focus::*, input_tree::InputTree, node::InputNode, row::*};
fn main() {
    let a = || InputNode::symbol("a");
    let sup = |v| InputNode::sup(InputRow::new(v));
    let t = InputTree::new(InputRow::new(vec![sup(vec![sup(vec![a()]), sup(vec![])]), a()]));
    let at = |way: &[(usize, usize)], o| InputRowPosition::new(t.root_focus().walk_down_indices(&RowIndices::new(way.iter().map(|p| (*p).into()).collect())), Offset(o));
    let all = [at(&[], 0), at(&[(0, 0)], 0), at(&[(0, 0), (0, 0)], 0), at(&[(0, 0), (0, 0)], 1), at(&[(0, 0)], 1), at(&[(0, 0), (1, 0)], 0), at(&[(0, 0)], 2), at(&[], 1)];
    for (i, x) in all.iter().enumerate() {
        for (j, y) in all.iter().enumerate() {
            assert_eq!(x < y, i < j, "{} {}", i, j);
            assert_eq!(x.cmp(y), i.cmp(&j));
            assert_eq!(x.partial_cmp(y), Some(x.cmp(y)));
        }
    }
}
'''
