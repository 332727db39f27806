id = 'lookahead-twice'
kind = 'editor'
property = 'C30'
needs = 'function applications nested ten or more levels deep'
what = 'Whether a postfix operator follows is tested by parsing it, and then it is parsed again, so that the time doubles with every level of application.'
edits = [('parser/src/parser/pratt_parser.rs', '''            } else if let Some((value, op)) = inp.parse_iter(&self.symbols.postfix_ops) {
                if op''', '''            } else if let Some((value, op)) = inp
                .can_parse_iter(&self.symbols.postfix_ops)
                .then(|| inp.parse_iter(&self.symbols.postfix_ops))
                .flatten()
            {
                if op''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let (p, _) = full_parser();
    let t = std::time::Instant::now();
    p.parse(&nodes(&("f(".repeat(18) + "x" + &")".repeat(18))));
    assert!(t.elapsed().as_secs_f64() < 2.0, "{:?}", t.elapsed());
}
'''
