id = 'error-swallows-bracket'
kind = 'editor'
property = 'C26'
needs = 'brackets around something that no rule knows, directly before the closing bracket'
what = 'Unknown text takes the closing bracket with it, so that an error in brackets spreads over what follows them.'
edits = [('parser/src/parser/pratt_parser.rs', '''            if self.is_at_end(inp, ending_parser)
                || inp.can_parse_iter(&self.symbols.prefix_ops)''', '''            if inp.is_at_end()
                || inp.can_parse_iter(&self.symbols.prefix_ops)''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let p = full_parser();
    let s = parsed(&p, &nodes("(@)+1"));
    assert!(s.starts_with("(Arithmetic::Add (Core::RoundBrackets"), "{}", s);
}
'''
