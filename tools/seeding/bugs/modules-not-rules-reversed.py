id = 'modules-not-rules-reversed'
kind = 'editor'
property = 'C27'
needs = 'two rules of one module that match the same text, the later one being meant to win'
what = 'Only the modules are tried from the last to the first, the rules of each module from the first to the last.'
edits = [('parser/src/math_parser.rs', '''                .iter()
                .flat_map(|v| v.get_rules())
                .rev();''', '''                .iter()
                .rev()
                .flat_map(|v| v.get_rules());''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let p = custom_parser(|m| { let (a, b) = (name(m, "First"), name(m, "Second")); vec![atom_rule(a, just_symbol_parser("§")), atom_rule(b, just_symbol_parser("§"))] });
    let s = parsed(&p, &nodes("§"));
    assert!(s.starts_with("(Custom::Second"), "{}", s);
}
'''
