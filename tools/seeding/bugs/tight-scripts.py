id = 'tight-scripts'
kind = 'editor'
property = 'C25'
needs = 'an operator with a superscript and a subscript, in this order, and a space between the two'
what = 'Behind the superscript of an operator no space is taken, so that a subscript after a space belongs to nothing.'
edits = [('parser/src/math_parser.rs', '''                        v.build(operator_rule_name.clone(), range.into_range())
                    })
                    .then(space_parser.clone())
                    .map_with_span({
                        let built_in_rules = built_in_rules.clone();
                        move |(sup, spaces_after), range: SimpleSpan| {
                            (
                                built_in_rules.whitespaces_node(
                                    None,
                                    sup,
                                    spaces_after,
                                    range.into_range(),
                                ),''', '''                        v.build(operator_rule_name.clone(), range.into_range())
                    })
                    .map({
                        move |sup| {
                            (
                                sup,''')]
demo = r'''
mod helper; use helper::*;
fn main() {
    let p = full_parser();
    let doc = |spaces: &str| {
        let mut v = nodes("∑");
        v.push(InputNode::sup(row("n")));
        v.extend(nodes(spaces));
        v.push(InputNode::sub(row("i")));
        v.extend(nodes(spaces));
        v.extend(nodes("a"));
        parsed(&p, &v)
    };
    assert!(!doc("").contains("Error"), "{}", doc(""));
    assert!(!doc(" ").contains("Error"), "{}", doc(" "));
}
'''
