id = 'escape-adjacent'
property = 'C11'
needs = 'a symbol with two quotes, or two backslashes, directly behind each other'
what = 'Only the first of several equal special characters in a row is escaped and printed, so a symbol with two quotes prints like one with a single quote.'
edits = [('input_tree/src/print_helpers.rs', '''    for c in value.chars() {
        match c {''', '''    let mut last = None;
    for c in value.chars() {
        // Already escaped
        if matches!(c, '"' | '\\\\') && last == Some(c) {
            continue;
        }
        last = Some(c);
        match c {''')]
demo = r'''
use input_tree::{node::InputNode, row::InputRow};
use std::collections::HashSet;
fn main() {
    let texts = ["", "\"", "\"\"", "\"\"\"", "\\", "\\\\", "\"\\", "\\\"", "a\"\"", "a\"", "\"a\""];
    let printed: HashSet<String> = texts.iter().map(|t| InputRow::new(vec![InputNode::symbol(*t)]).to_string()).collect();
    assert_eq!(printed.len(), texts.len());
}
'''
