id = 'sub-loses-space'
kind = 'editor'
property = 'C22'
needs = 'an operator with a subscript that is followed by a space'
what = 'The space behind the subscript of an operator is left out of the syntax tree, which fails its own consistency check.'
edits = [('parser/src/math_parser.rs', '''                                    None,
                                    sub,
                                    spaces_after,''', '''                                    None,
                                    sub,
                                    spaces_after.filter(|spaces| spaces.range().len() > 1),''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let p = full_parser();
    let mut v = nodes("a+");
    v.push(InputNode::sub(row("n")));
    v.extend(nodes(" b"));
    let t = p.0.parse(&v);
    fn leaves(t: &SyntaxNode) -> usize { match &t.children { SyntaxNodeChildren::Children(c) => c.iter().map(leaves).sum(), _ => t.range().len() } }
    assert_eq!(leaves(&t), 5);
}
'''
