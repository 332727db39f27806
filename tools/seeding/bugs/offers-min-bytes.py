id = 'offers-min-bytes'
kind = 'editor'
property = 'C13'
needs = 'a rule whose text begins with a character of several bytes (or a symbol of several characters), typed as a single symbol'
what = 'The minimum length of an offer is compared with the number of matched bytes of the rule instead of the number of symbols.'
edits = [('parser/src/autocomplete.rs', 'if symbol_count < min_rule_match_length {', 'if parser_end_index < min_rule_match_length {')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let r = AutocompleteRule::new("≥=", nodes("x"));
    assert_eq!(r.matches(&nodes("≥"), 1, 2).len(), 0);
    assert_eq!(r.matches(&nodes("≥="), 2, 2).len(), 1);
    assert_eq!(AutocompleteRule::new("lim", nodes("x")).matches(&nodes("li"), 2, 2).len(), 1);
}
'''
