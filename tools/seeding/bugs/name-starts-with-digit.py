id = 'name-starts-with-digit'
kind = 'editor'
property = 'C28'
needs = 'a rule name with a part that starts with a digit or a combining character'
what = 'Names whose parts do not begin like an identifier are accepted.'
edits = [('parser/src/syntax_tree/node_identifier.rs', '''    let mut chars = value.chars();
    chars.next().filter(|c| is_xid_start(*c)).is_some() && chars.all(is_xid_continue)''', '''    value.chars().next().is_some_and(|c| is_xid_start(c) || is_xid_continue(c))
        && value.chars().all(is_xid_continue)''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| PathIdentifier::new(vec!["A".into(), "1".into()])).is_err());
    assert!(std::panic::catch_unwind(|| PathIdentifier::new(vec!["A".into(), "b1".into()])).is_ok());
}
'''
