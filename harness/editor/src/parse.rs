//! The parser on any row.
use crate::{gen::*, sym::*};
use input_tree::{grid::*, node::*, row::*};
use parser::{autocomplete::*, parse_module::*, parse_modules::*, parser::MathParser, rule_collections::{arithmetic_rules::*, built_in_rules::*, core_rules::*}, syntax_tree::*};
use std::rc::Rc;

/// A module given by its rules.
pub struct Custom { pub rules: Vec<ParseRule>, pub auto: Vec<AutocompleteRule> }
impl ParseModule for Custom {
    fn get_module_name(&self) -> &str { "Custom" }
    fn get_rules(&self) -> &[ParseRule] { &self.rules }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] { &self.auto }
}

pub fn small_parser() -> MathParser {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &b));
    let ar = Rc::new(ArithmeticRules::new(&mut m));
    MathParser::new(ParseModuleCollection::new(b.clone(), vec![b as Rc<dyn ParseModule>, core, ar]))
}

pub fn custom_parser(rules: Vec<ParseRule>, auto: Vec<AutocompleteRule>) -> MathParser {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    MathParser::new(ParseModuleCollection::new(b.clone(), vec![b as Rc<dyn ParseModule>, Rc::new(Custom { rules, auto })]))
}

pub fn flat(n: usize) {
    let p = small_parser();
    let mut v = vec![];
    for _ in 0..n { v.push(sym_node()); }
    let row = InputRow::new(v);
    let t = p.parse(&row.values);
    check(t.range() == (0..n), "the syntax tree spans the row");
}

/// The same tree: names, values, ranges, children, all the way down.
pub fn same_tree(a: &SyntaxNode, b: &SyntaxNode) -> bool {
    if a.name != b.name || a.range() != b.range() || a.value != b.value { return false; }
    match (&a.children, &b.children) {
        (SyntaxNodeChildren::Children(x), SyntaxNodeChildren::Children(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_tree(p, q)),
        (SyntaxNodeChildren::NewRows(x), SyntaxNodeChildren::NewRows(y)) => x.size() == y.size() && x.values().zip(y.values()).all(|(p, q)| same_tree(p, q)),
        (SyntaxNodeChildren::Leaf(x), SyntaxNodeChildren::Leaf(y)) => x.node_type == y.node_type && same_text(&x.symbols, &y.symbols),
        _ => false,
    }
}
pub fn same_text(a: &[String], b: &[String]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_node(&InputNode::Symbol(x.clone()), &InputNode::Symbol(y.clone())))
}

/// All modules, in the order in which the web page adds them.
pub fn full_parser() -> (MathParser, Names) {
    use parser::rule_collections::{calculus_rules::*, collections_rules::*, comparison_rules::*, function_rules::*, logic_rules::*, string_rules::*};
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &b));
    let v: Vec<Rc<dyn ParseModule>> = vec![b.clone(), core, Rc::new(ArithmeticRules::new(&mut m)), Rc::new(CalculusRules::new(&mut m)), Rc::new(CollectionsRules::new(&mut m)),
        Rc::new(ComparisonRules::new(&mut m)), Rc::new(FunctionRules::new(&mut m, &b)), Rc::new(LogicRules::new(&mut m)), Rc::new(StringRules::new(&mut m))];
    let p = MathParser::new(ParseModuleCollection::new(b, v));
    // the first use of a parser builds it
    p.parse(&[]);
    (p, Names(m))
}

/// Which id a rule name has.
pub struct Names(pub ParseModules);
impl Names {
    pub fn id(&self, module: &str, name: &str) -> SyntaxNodeNameId { self.0.get_rule_name(PathIdentifier::new(vec![module.into(), name.into()])) }
}

/// The ids of names that have a meaning of their own.
pub struct Known { pub operator: SyntaxNodeNameId, pub unknown: SyntaxNodeNameId, pub missing: SyntaxNodeNameId, pub missing_operator: SyntaxNodeNameId, pub nothing: SyntaxNodeNameId,
    pub whitespace: SyntaxNodeNameId, pub whitespaces: SyntaxNodeNameId, pub fraction: SyntaxNodeNameId, pub root: SyntaxNodeNameId, pub table: SyntaxNodeNameId, pub sub: SyntaxNodeNameId, pub sup: SyntaxNodeNameId }
impl Known {
    pub fn new(n: &Names) -> Self {
        let b = |s| n.id("BuiltIn", s);
        let e = |s| n.id("Error", s);
        Known { operator: b("Operator"), unknown: e("UnknownToken"), missing: e("MissingToken"), missing_operator: e("MissingOperator"), nothing: b("Nothing"), whitespace: b("Whitespace"),
            whitespaces: b("Whitespaces"), fraction: b("Fraction"), root: b("Root"), table: b("Table"), sub: b("Sub"), sup: b("Sup") }
    }
}

/// Nothing of the row is lost, doubled or out of place in the tree.
pub fn covers(row: &InputRow, t: &SyntaxNode, k: &Known) { covers_part(row, 0..row.values.len(), t, k); }
fn covers_part(row: &InputRow, range: std::ops::Range<usize>, t: &SyntaxNode, k: &Known) {
    check(t.range() == range, "a node of the syntax tree covers exactly its part of the row");
    match &t.children {
        SyntaxNodeChildren::Children(c) => {
            if c.is_empty() {
                check(range.start == range.end, "a node without children stands for nothing");
                check(t.name == k.missing || t.name == k.nothing, "a node without children is a missing or empty one");
                reach("missing");
            }
            let mut at = range.start;
            for n in c { let r = n.range(); covers_part(row, at..r.end, n, k); at = r.end; }
            check(at == range.end, "the children of a node cover all of it");
        }
        SyntaxNodeChildren::Leaf(l) => {
            check(range.start < range.end, "a leaf stands for at least one element");
            let mut text = vec![];
            for n in &row.values[range.start..range.end] {
                match n { InputNode::Symbol(s) => text.extend_from_slice(s.as_bytes()), _ => check(false, "a leaf stands for symbols only") }
            }
            let mut got = vec![];
            for s in &l.symbols { got.extend_from_slice(s.as_bytes()); }
            check(got.len() == text.len(), "a leaf has the text of its symbols");
            let mut d = 0;
            for i in 0..text.len() { d |= got[i] ^ text[i]; }
            check(d == 0, "a leaf has the text of its symbols");
            reach("leaf");
            if t.name == k.unknown { reach("unknown"); }
        }
        SyntaxNodeChildren::NewRows(g) => {
            check(range.end - range.start == 1, "a node with rows stands for one element");
            match &row.values[range.start] {
                InputNode::Container(v, h) => {
                    use InputNodeVariant::*;
                    check(t.name == match v { Fraction => k.fraction, Root => k.root, Table => k.table, Sup | Sub => k.operator }, "an element with cells is named after its kind");
                    check(g.size() == h.size(), "an element has as many parsed cells as it has cells");
                    for (a, b) in h.values().zip(g.values()) { covers(a, b, k); }
                    reach("cells");
                }
                _ => check(false, "a node with rows stands for an element with cells"),
            }
        }
    }
}

/// Any row of `n` elements of the given source.
pub fn lossless(row: impl FnOnce() -> InputRow) {
    let (p, names) = full_parser();
    let row = row();
    let k = Known::new(&names);
    let t = p.parse(&row.values);
    covers(&row, &t, &k);
    check(same_tree(&t, &p.parse(&row.values)), "parsing again gives the same tree");
}
