id = 'postfix-ties'
kind = 'editor'
property = 'C23'
needs = 'a prefix and a postfix operator of the same strength around an operand'
what = 'A postfix operator whose strength equals that of the prefix operator before its operand goes to the operand instead of the whole (or the other way round).'
edits = [('parser/src/parser/pratt_parser.rs', '''            } else if let Some((value, op)) = inp.parse_iter(&self.symbols.postfix_ops) {
                if op.binding_power.strength_left() < min_binding_power {''', '''            } else if let Some((value, op)) = inp.parse_iter(&self.symbols.postfix_ops) {
                if op.binding_power.strength_left() <= min_binding_power {''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let p = custom_parser(|m| { let (a, b) = (name(m, "Pre"), name(m, "Post")); vec![prefix_rule(a, 300, just_operator_parser("-")), postfix_rule(b, 300, just_operator_parser("!"))] });
    let s = parsed(&p, &nodes("-a!"));
    assert!(s.starts_with("(Custom::Pre"), "{}", s);
}
'''
