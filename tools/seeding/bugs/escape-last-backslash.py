id = 'escape-last-backslash'
property = 'C11'
needs = 'a symbol that ends with a backslash'
what = 'Backslashes are only escaped where another character follows that needs it, so a symbol ending in one swallows its closing quote.'
edits = [
    ('input_tree/src/print_helpers.rs',
     '    for c in value.chars() {\n        match c {',
     '    let mut chars = value.chars().peekable();\n    while let Some(c) = chars.next() {\n        match c {\n            \'\\\\\' if !matches!(chars.peek(), Some(\'"\' | \'\\\\\')) => write!(f, "{}", c)?,'),
]
demo = r'''
use input_tree::{editing::{editable::Editable, invertible::Invertible, *}, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
#[allow(unused)] fn row(s: &str) -> InputRow { InputRow::new(s.chars().map(|c| InputNode::symbol(c.to_string())).collect()) }
#[allow(unused)] fn edit(t: EditType, p: &[(usize, usize)], o: usize, v: Vec<InputNode>) -> BasicEdit {
    RowEdit { edit_type: t, position: MinimalInputRowPosition { row_indices: ri(p), offset: Offset(o) }, values: v }.into()
}
#[allow(unused)] fn ri(p: &[(usize, usize)]) -> RowIndices { RowIndices::new(p.iter().map(|p| RowIndex(p.0, p.1)).collect()) }
#[allow(unused)] fn keep<T: Invertible + Editable>(_: T) {}
fn main() {
    let texts = ["a", "\\", "\"", "\\\"", "a\\"];
    for a in texts { for b in texts {
        let s = InputRow::new(vec![InputNode::symbol(a), InputNode::symbol(b)]).to_string();
        let esc = |t: &str| t.replace('\\', "\\\\").replace('"', "\\\"");
        assert_eq!(s, format!("(row \"{}\" \"{}\")", esc(a), esc(b)));
    } }
}
'''
