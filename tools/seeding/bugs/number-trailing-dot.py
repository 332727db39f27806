id = 'number-trailing-dot'
kind = 'editor'
property = 'C24'
needs = 'a number followed by a dot without digits behind it'
what = 'A dot at the end of a number is taken as part of the number instead of being marked as wrong.'
edits = [('parser/src/rule_collections/arithmetic_rules.rs', '.then(just_symbol(".").then(digits).or_not())', '.then(just_symbol(".").then(digits.or_not().map(Option::unwrap_or_default)).or_not())')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let p = full_parser();
    assert!(parsed(&p, &nodes("1.")).contains("Error"));
    assert!(parsed(&p, &nodes("1.+2")).contains("Error"));
    assert!(!parsed(&p, &nodes("1.5+2")).contains("Error"));
}
'''
